From b830f75dfcbe2c1efc4504001a7892a8b66bbe1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:38 +0000
Subject: [PATCH 01/66] fix: reply codes without an extended code are answered
 instead of hanging the session

---
 milter/core/milter-reply-decoder.c     | 47 ++++++++++++++++++++++----
 milter/manager/milter-manager-leader.c |  1 -
 2 files changed, 40 insertions(+), 8 deletions(-)

diff --git a/milter/core/milter-reply-decoder.c b/milter/core/milter-reply-decoder.c
index bceca6b..b0ce154 100644
--- a/milter/core/milter-reply-decoder.c
+++ b/milter/core/milter-reply-decoder.c
@@ -157,6 +157,31 @@ find_space_character (const gchar *buffer, gint length)
     return -1;
 }
 
+static gboolean
+is_extended_code (const gchar *buffer, gint length)
+{
+    gint i, n_components = 1, n_digits = 0;
+
+    if (length < 1 ||
+        (buffer[0] != '2' && buffer[0] != '4' && buffer[0] != '5'))
+        return FALSE;
+
+    for (i = 0; i < length; i++) {
+        if (g_ascii_isdigit(buffer[i])) {
+            n_digits++;
+            if (n_digits > 3 || (n_components == 1 && n_digits > 1))
+                return FALSE;
+        } else if (buffer[i] == '.' && n_digits > 0 && n_components < 3) {
+            n_components++;
+            n_digits = 0;
+        } else {
+            return FALSE;
+        }
+    }
+
+    return n_components == 3 && n_digits > 0;
+}
+
 static gboolean
 decode_reply_reply_code (MilterDecoder *decoder, GError **error)
 {
@@ -165,8 +190,9 @@ decode_reply_reply_code (MilterDecoder *decoder, GError **error)
     const gchar *buffer;
     gint32 command_length;
     gchar *reply_code_str;
-    gchar *extended_code;
+    gchar *extended_code = NULL;
     gchar *message = NULL;
+    gint extended_code_length;
     guint reply_code;
 
     command_length = milter_decoder_get_command_length(decoder);
@@ -214,16 +240,23 @@ decode_reply_reply_code (MilterDecoder *decoder, GError **error)
 
     space_character_point = find_space_character(buffer, command_length);
 
-    if (space_character_point <0) {
-        extended_code = g_strdup(buffer);
-    } else {
-        extended_code = g_strndup(buffer, space_character_point);
-        message = g_strdup(buffer + space_character_point + 1);
+    extended_code_length = space_character_point;
+    if (extended_code_length < 0)
+        extended_code_length = strlen(buffer);
+
+    if (is_extended_code(buffer, extended_code_length)) {
+        extended_code = g_strndup(buffer, extended_code_length);
+        if (space_character_point >= 0)
+            message = g_strdup(buffer + space_character_point + 1);
+    } else if (buffer[0] != '\0') {
+        message = g_strdup(buffer);
     }
 
     milter_debug("[%u] [reply-decoder][reply-code] <%u %s %s>",
                  milter_decoder_get_tag(decoder),
-                 reply_code, extended_code, message);
+                 reply_code,
+                 MILTER_LOG_NULL_SAFE_STRING(extended_code),
+                 MILTER_LOG_NULL_SAFE_STRING(message));
 
     g_signal_emit_by_name(decoder, "reply-code",
                           reply_code, extended_code, message);
diff --git a/milter/manager/milter-manager-leader.c b/milter/manager/milter-manager-leader.c
index c59cf48..cd666a9 100644
--- a/milter/manager/milter-manager-leader.c
+++ b/milter/manager/milter-manager-leader.c
@@ -590,7 +590,6 @@ cb_reply_code (MilterReplySignals *_reply,
         milter_error_emittable_emit(MILTER_ERROR_EMITTABLE(leader),
                                     error);
         g_error_free(error);
-        return;
     }
 
     if ((code / 100) == 4) {
-- 
2.43.0


From 635bb2093568410e7876d733a3bf862ca555edf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:38 +0000
Subject: [PATCH 02/66] fix: a reply code set for one answer is not used for a
 later or different answer

---
 milter/client/milter-client-context.c | 36 +++++++++++++++++++--------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/milter/client/milter-client-context.c b/milter/client/milter-client-context.c
index a1f824c..30a6d11 100644
--- a/milter/client/milter-client-context.c
+++ b/milter/client/milter-client-context.c
@@ -2198,6 +2198,22 @@ dispose_message_result (MilterClientContextPrivate *priv)
     }
 }
 
+static void
+dispose_reply (MilterClientContextPrivate *priv)
+{
+    priv->reply_code = 0;
+
+    if (priv->extended_reply_code) {
+        g_free(priv->extended_reply_code);
+        priv->extended_reply_code = NULL;
+    }
+
+    if (priv->reply_message) {
+        g_free(priv->reply_message);
+        priv->reply_message = NULL;
+    }
+}
+
 static void
 dispose (GObject *object)
 {
@@ -2222,15 +2238,7 @@ dispose (GObject *object)
         priv->option = NULL;
     }
 
-    if (priv->extended_reply_code) {
-        g_free(priv->extended_reply_code);
-        priv->extended_reply_code = NULL;
-    }
-
-    if (priv->reply_message) {
-        g_free(priv->reply_message);
-        priv->reply_message = NULL;
-    }
+    dispose_reply(priv);
 
     if (priv->quarantine_reason) {
         g_free(priv->quarantine_reason);
@@ -3292,9 +3300,11 @@ static void
 create_reply_packet (MilterClientContext *context, MilterStatus status,
                      const gchar **packet, gsize *packet_size)
 {
+    MilterClientContextPrivate *priv;
     MilterEncoder *encoder;
     MilterReplyEncoder *reply_encoder;
 
+    priv = MILTER_CLIENT_CONTEXT_GET_PRIVATE(context);
     encoder = milter_agent_get_encoder(MILTER_AGENT(context));
     reply_encoder = MILTER_REPLY_ENCODER(encoder);
 
@@ -3306,9 +3316,13 @@ create_reply_packet (MilterClientContext *context, MilterStatus status,
     case MILTER_STATUS_TEMPORARY_FAILURE:
     case MILTER_STATUS_REJECT:
     {
-        gchar *code;
+        gchar *code = NULL;
+        guint reply_class;
 
-        code = milter_client_context_format_reply(context);
+        reply_class = (status == MILTER_STATUS_TEMPORARY_FAILURE) ? 4 : 5;
+        if (priv->reply_code / 100 == reply_class)
+            code = milter_client_context_format_reply(context);
+        dispose_reply(priv);
         if (code) {
             milter_reply_encoder_encode_reply_code(reply_encoder,
                                                    packet, packet_size,
-- 
2.43.0


From dd3e8dc46e8e97c0b56a4fd5926325b5641733b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:38 +0000
Subject: [PATCH 03/66] fix: macros requested with braces or at unrequested
 stages reach the milter

---
 milter/server/milter-server-context.c | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/milter/server/milter-server-context.c b/milter/server/milter-server-context.c
index a8a46ed..24130d3 100644
--- a/milter/server/milter-server-context.c
+++ b/milter/server/milter-server-context.c
@@ -977,12 +977,24 @@ filter_macros (GHashTable *macros, GList *request_symbols)
                                             g_free, g_free);
 
     for (symbol = request_symbols; symbol; symbol = g_list_next(symbol)) {
+        const gchar *name = symbol->data;
         const gchar *value;
-        value = g_hash_table_lookup(macros, symbol->data);
+        gsize length;
+        gchar *normalized_name;
+
+        /* macros are stored without braces but may be requested with them */
+        length = strlen(name);
+        if (length > 2 && name[0] == '{' && name[length - 1] == '}')
+            normalized_name = g_strndup(name + 1, length - 2);
+        else
+            normalized_name = g_strdup(name);
+        value = g_hash_table_lookup(macros, normalized_name);
         if (value) {
             g_hash_table_insert(filtered_macros,
-                                g_strdup(symbol->data),
+                                normalized_name,
                                 g_strdup(value));
+        } else {
+            g_free(normalized_name);
         }
     }
 
@@ -1023,11 +1035,13 @@ prepend_macro (MilterServerContext *context, GString *packed_packet,
     if (macros_requests) {
         request_symbols =
             milter_macros_requests_get_symbols(macros_requests, command);
-        if (request_symbols)
+        /* a stage without a request keeps the macros the MTA sends */
+        if (request_symbols) {
             filtered_macros = filter_macros(macros, request_symbols);
-        if (!filtered_macros)
-            return;
-        target_macros = filtered_macros;
+            if (!filtered_macros)
+                return;
+            target_macros = filtered_macros;
+        }
     }
 
     encoder = milter_agent_get_encoder(agent);
-- 
2.43.0


From 4cc203348d84b55e4db2c547c656b52efdd54152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:38 +0000
Subject: [PATCH 04/66] fix: child reply codes follow the deciding milter and
 answers to unknown commands keep the milter

---
 milter/manager/milter-manager-children.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index a5871bf..6d0b488 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -942,13 +942,13 @@ emit_reply_status_of_state (MilterManagerChildren *children,
         g_signal_emit_by_name(children, "reply-code",
                               priv->reply_code, priv->reply_extended_code,
                               priv->reply_message);
-        dispose_reply_related_data(priv);
     } else {
         if (status != MILTER_STATUS_NOT_CHANGE) {
             g_signal_emit_by_name(children,
                                   status_to_signal_name(status));
         }
     }
+    dispose_reply_related_data(priv);
 
     if (state == MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE) {
         MilterManagerChildrenPrivate *priv;
@@ -1472,6 +1472,7 @@ cb_temporary_failure (MilterServerContext *context, gpointer user_data)
         remove_child_from_queue(children, context);
         break;
     case MILTER_SERVER_CONTEXT_STATE_ENVELOPE_RECIPIENT:
+    case MILTER_SERVER_CONTEXT_STATE_UNKNOWN:
         remove_child_from_queue(children, context);
         break;
     case MILTER_SERVER_CONTEXT_STATE_HEADER:
@@ -1542,6 +1543,7 @@ cb_reject (MilterServerContext *context, gpointer user_data)
         remove_child_from_queue(children, context);
         break;
     case MILTER_SERVER_CONTEXT_STATE_ENVELOPE_RECIPIENT:
+    case MILTER_SERVER_CONTEXT_STATE_UNKNOWN:
         remove_child_from_queue(children, context);
         break;
     case MILTER_SERVER_CONTEXT_STATE_HEADER:
@@ -1582,12 +1584,15 @@ cb_reply_code (MilterServerContext *context,
 
     priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
 
-    dispose_reply_related_data(priv);
-    priv->reply_code = code;
-    priv->reply_extended_code = g_strdup(extended_code);
-    priv->reply_message = g_strdup(message);
+    if (!milter_manager_child_is_evaluation_mode(MILTER_MANAGER_CHILD(context)) &&
+        code / 100 >= priv->reply_code / 100) {
+        dispose_reply_related_data(priv);
+        priv->reply_code = code;
+        priv->reply_extended_code = g_strdup(extended_code);
+        priv->reply_message = g_strdup(message);
+    }
 
-    if ((priv->reply_code / 100) == 4) {
+    if ((code / 100) == 4) {
         cb_temporary_failure(context, user_data);
     } else {
         cb_reject(context, user_data);
@@ -1620,6 +1625,9 @@ cb_accept (MilterServerContext *context, gpointer user_data)
         milter_server_context_set_processing_message(context, FALSE);
         remove_child_from_queue(children, context);
         break;
+    case MILTER_SERVER_CONTEXT_STATE_UNKNOWN:
+        remove_child_from_queue(children, context);
+        break;
     case MILTER_SERVER_CONTEXT_STATE_HEADER:
     case MILTER_SERVER_CONTEXT_STATE_END_OF_HEADER:
     case MILTER_SERVER_CONTEXT_STATE_BODY:
@@ -1682,6 +1690,7 @@ cb_discard (MilterServerContext *context, gpointer user_data)
         remove_child_from_queue(children, context);
         break;
     case MILTER_SERVER_CONTEXT_STATE_ENVELOPE_RECIPIENT:
+    case MILTER_SERVER_CONTEXT_STATE_UNKNOWN:
         remove_child_from_queue(children, context);
         break;
     case MILTER_SERVER_CONTEXT_STATE_HEADER:
-- 
2.43.0


From d3bdcd7d54e8aeba28591e04ef9724889445b497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:39 +0000
Subject: [PATCH 05/66] fix: a command is answered once when the children fail
 after answering

---
 milter/manager/milter-manager-leader.c | 86 +++++++++++++++-----------
 1 file changed, 51 insertions(+), 35 deletions(-)

diff --git a/milter/manager/milter-manager-leader.c b/milter/manager/milter-manager-leader.c
index cd666a9..ccdf85d 100644
--- a/milter/manager/milter-manager-leader.c
+++ b/milter/manager/milter-manager-leader.c
@@ -436,6 +436,30 @@ state_to_response_signal_name (MilterManagerLeaderState state)
     return signal_name;
 }
 
+static gboolean
+is_replied_state (MilterManagerLeaderState state)
+{
+    switch (state) {
+      case MILTER_MANAGER_LEADER_STATE_NEGOTIATE:
+      case MILTER_MANAGER_LEADER_STATE_CONNECT:
+      case MILTER_MANAGER_LEADER_STATE_HELO:
+      case MILTER_MANAGER_LEADER_STATE_ENVELOPE_FROM:
+      case MILTER_MANAGER_LEADER_STATE_ENVELOPE_RECIPIENT:
+      case MILTER_MANAGER_LEADER_STATE_DATA:
+      case MILTER_MANAGER_LEADER_STATE_UNKNOWN:
+      case MILTER_MANAGER_LEADER_STATE_HEADER:
+      case MILTER_MANAGER_LEADER_STATE_END_OF_HEADER:
+      case MILTER_MANAGER_LEADER_STATE_BODY:
+      case MILTER_MANAGER_LEADER_STATE_END_OF_MESSAGE:
+      case MILTER_MANAGER_LEADER_STATE_QUIT:
+      case MILTER_MANAGER_LEADER_STATE_ABORT:
+        return FALSE;
+      default:
+        return TRUE;
+        break;
+    }
+}
+
 static MilterManagerLeaderState
 next_state (MilterManagerLeader *leader,
             MilterManagerLeaderState state)
@@ -507,6 +531,19 @@ next_state (MilterManagerLeader *leader,
     return next_state;
 }
 
+static MilterStatus
+fallback_status_unless_replied (MilterManagerLeader *leader,
+                                MilterStatus fallback_status)
+{
+    MilterManagerLeaderPrivate *priv;
+
+    priv = MILTER_MANAGER_LEADER_GET_PRIVATE(leader);
+    /* the children may have answered before they returned */
+    if (is_replied_state(priv->state))
+        return MILTER_STATUS_PROGRESS;
+    priv->state = next_state(leader, priv->state);
+    return fallback_status;
+}
 
 static void
 cb_negotiate_reply (MilterServerContext *context, MilterOption *option,
@@ -901,6 +938,9 @@ cb_error (MilterErrorEmittable *emittable, GError *error, gpointer user_data)
     if (error->domain != MILTER_MANAGER_CHILDREN_ERROR)
         return;
 
+    if (is_replied_state(priv->state))
+        return;
+
     fallback_status =
         milter_manager_configuration_get_fallback_status(priv->configuration);
     reply(leader, fallback_status);
@@ -1017,7 +1057,7 @@ milter_manager_leader_negotiate (MilterManagerLeader *leader,
                                           macros_requests)) {
         return MILTER_STATUS_PROGRESS;
     } else {
-        return fallback_status;
+        return fallback_status_unless_replied(leader, fallback_status);
     }
 }
 
@@ -1042,7 +1082,7 @@ milter_manager_leader_connect (MilterManagerLeader *leader,
                                         address, address_length)) {
         return MILTER_STATUS_PROGRESS;
     } else {
-        return fallback_status;
+        return fallback_status_unless_replied(leader, fallback_status);
     }
 }
 
@@ -1063,7 +1103,7 @@ milter_manager_leader_helo (MilterManagerLeader *leader, const gchar *fqdn)
     if (milter_manager_children_helo(priv->children, fqdn)) {
         return MILTER_STATUS_PROGRESS;
     } else {
-        return fallback_status;
+        return fallback_status_unless_replied(leader, fallback_status);
     }
 }
 
@@ -1085,7 +1125,7 @@ milter_manager_leader_envelope_from (MilterManagerLeader *leader,
     if (milter_manager_children_envelope_from(priv->children, from)) {
         return MILTER_STATUS_PROGRESS;
     } else {
-        return fallback_status;
+        return fallback_status_unless_replied(leader, fallback_status);
     }
 }
 
@@ -1107,7 +1147,7 @@ milter_manager_leader_envelope_recipient (MilterManagerLeader *leader,
     if (milter_manager_children_envelope_recipient(priv->children, recipient)) {
         return MILTER_STATUS_PROGRESS;
     } else {
-        return fallback_status;
+        return fallback_status_unless_replied(leader, fallback_status);
     }
 }
 
@@ -1128,7 +1168,7 @@ milter_manager_leader_data (MilterManagerLeader *leader)
     if (milter_manager_children_data(priv->children)) {
         return MILTER_STATUS_PROGRESS;
     } else {
-        return fallback_status;
+        return fallback_status_unless_replied(leader, fallback_status);
     }
 }
 
@@ -1150,7 +1190,7 @@ milter_manager_leader_unknown (MilterManagerLeader *leader,
     if (milter_manager_children_unknown(priv->children, command)) {
         return MILTER_STATUS_PROGRESS;
     } else {
-        return fallback_status;
+        return fallback_status_unless_replied(leader, fallback_status);
     }
 }
 
@@ -1172,7 +1212,7 @@ milter_manager_leader_header (MilterManagerLeader *leader,
     if (milter_manager_children_header(priv->children, name, value)) {
         return MILTER_STATUS_PROGRESS;
     } else {
-        return fallback_status;
+        return fallback_status_unless_replied(leader, fallback_status);
     }
 }
 
@@ -1193,7 +1233,7 @@ milter_manager_leader_end_of_header (MilterManagerLeader *leader)
     if (milter_manager_children_end_of_header(priv->children)) {
         return MILTER_STATUS_PROGRESS;
     } else {
-        return fallback_status;
+        return fallback_status_unless_replied(leader, fallback_status);
     }
 }
 
@@ -1215,31 +1255,7 @@ milter_manager_leader_body (MilterManagerLeader *leader,
     if (milter_manager_children_body(priv->children, chunk, size)) {
         return MILTER_STATUS_PROGRESS;
     } else {
-        return fallback_status;
-    }
-}
-
-static gboolean
-is_replied_state (MilterManagerLeaderState state)
-{
-    switch (state) {
-      case MILTER_MANAGER_LEADER_STATE_NEGOTIATE:
-      case MILTER_MANAGER_LEADER_STATE_CONNECT:
-      case MILTER_MANAGER_LEADER_STATE_HELO:
-      case MILTER_MANAGER_LEADER_STATE_ENVELOPE_FROM:
-      case MILTER_MANAGER_LEADER_STATE_ENVELOPE_RECIPIENT:
-      case MILTER_MANAGER_LEADER_STATE_DATA:
-      case MILTER_MANAGER_LEADER_STATE_UNKNOWN:
-      case MILTER_MANAGER_LEADER_STATE_HEADER:
-      case MILTER_MANAGER_LEADER_STATE_END_OF_HEADER:
-      case MILTER_MANAGER_LEADER_STATE_BODY:
-      case MILTER_MANAGER_LEADER_STATE_END_OF_MESSAGE:
-      case MILTER_MANAGER_LEADER_STATE_QUIT:
-      case MILTER_MANAGER_LEADER_STATE_ABORT:
-        return FALSE;
-      default:
-        return TRUE;
-        break;
+        return fallback_status_unless_replied(leader, fallback_status);
     }
 }
 
@@ -1266,7 +1282,7 @@ milter_manager_leader_end_of_message (MilterManagerLeader *leader,
     if (milter_manager_children_end_of_message(priv->children, chunk, size)) {
         return MILTER_STATUS_PROGRESS;
     } else {
-        return fallback_status;
+        return fallback_status_unless_replied(leader, fallback_status);
     }
 }
 
-- 
2.43.0


From f43c662360cc42cdf1b03224c6c45c2b87155dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:39 +0000
Subject: [PATCH 06/66] fix: an answer to an unknown command does not abort the
 message

---
 milter/manager/milter-manager-children.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index 6d0b488..875201b 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -1081,7 +1081,8 @@ remove_child_from_queue (MilterManagerChildren *children,
     case MILTER_STATUS_REJECT:
     case MILTER_STATUS_TEMPORARY_FAILURE:
         if (priv->processing_state !=
-            MILTER_SERVER_CONTEXT_STATE_ENVELOPE_RECIPIENT) {
+            MILTER_SERVER_CONTEXT_STATE_ENVELOPE_RECIPIENT &&
+            priv->processing_state != MILTER_SERVER_CONTEXT_STATE_UNKNOWN) {
             abort_all_children(children);
         }
         break;
-- 
2.43.0


From 891dd3aa789ac87fc2c97fd2555f30f8b9b0401e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:39 +0000
Subject: [PATCH 07/66] fix: no state of a message is used for the next one

---
 milter/manager/milter-manager-children.c | 25 ++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index 875201b..6194cbf 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -495,6 +495,30 @@ dispose_message_related_data (MilterManagerChildrenPrivate *priv)
         g_free(priv->quarantine_reason);
         priv->quarantine_reason = NULL;
     }
+
+    priv->end_of_message_size = 0;
+    priv->processing_header_index = 0;
+    priv->sent_body_offset = 0;
+    priv->sending_body = FALSE;
+    priv->replaced_body = FALSE;
+    priv->replaced_body_for_each_child = FALSE;
+}
+
+static void
+reset_message_related_data (MilterManagerChildren *children)
+{
+    MilterManagerChildrenPrivate *priv;
+    MilterServerContextState state;
+
+    priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
+
+    dispose_message_related_data(priv);
+    dispose_reply_related_data(priv);
+    for (state = MILTER_SERVER_CONTEXT_STATE_HEADER;
+         state <= MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE;
+         state++) {
+        g_hash_table_remove(priv->reply_statuses, GINT_TO_POINTER(state));
+    }
 }
 
 static void
@@ -3393,6 +3417,7 @@ milter_manager_children_envelope_from (MilterManagerChildren *children,
 
     priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
 
+    reset_message_related_data(children);
     init_reply_queue(children, state);
     for (child = priv->milters; child; child = g_list_next(child)) {
         MilterServerContext *context = MILTER_SERVER_CONTEXT(child->data);
-- 
2.43.0


From 99366f78541641ac2dc5d8300219bfdc780b0e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:39 +0000
Subject: [PATCH 08/66] fix: message bodies containing NUL bytes are passed
 whole

---
 milter/client/milter-client-context.c            |  4 ++--
 milter/core/milter-command-decoder.c             |  4 ++--
 milter/core/milter-reply-signals.c               |  2 +-
 milter/manager/milter-manager-children.c         |  6 +++---
 .../milter-manager-control-command-decoder.c     |  8 ++++++--
 .../milter-manager-control-reply-decoder.c       |  8 ++++++--
 milter/server/milter-server-context.c            | 16 ++++++++++++----
 7 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/milter/client/milter-client-context.c b/milter/client/milter-client-context.c
index 30a6d11..a0e8e90 100644
--- a/milter/client/milter-client-context.c
+++ b/milter/client/milter-client-context.c
@@ -1749,7 +1749,7 @@ milter_client_context_class_init (MilterClientContextClass *klass)
                      NULL,
                      MILTER_TYPE_STATUS,
                      2,
-                     G_TYPE_STRING,
+                     G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE,
 #if GLIB_SIZEOF_SIZE_T == 8
                      G_TYPE_UINT64
 #else
@@ -1907,7 +1907,7 @@ milter_client_context_class_init (MilterClientContextClass *klass)
                      NULL,
                      MILTER_TYPE_STATUS,
                      2,
-                     G_TYPE_STRING,
+                     G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE,
 #if GLIB_SIZEOF_SIZE_T == 8
                      G_TYPE_UINT64
 #else
diff --git a/milter/core/milter-command-decoder.c b/milter/core/milter-command-decoder.c
index d699104..4491ea7 100644
--- a/milter/core/milter-command-decoder.c
+++ b/milter/core/milter-command-decoder.c
@@ -177,7 +177,7 @@ milter_command_decoder_class_init (MilterCommandDecoderClass *klass)
                      NULL,
                      G_TYPE_NONE,
                      2,
-                     G_TYPE_STRING,
+                     G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE,
 #if GLIB_SIZEOF_SIZE_T == 8
                       G_TYPE_UINT64
 #else
@@ -194,7 +194,7 @@ milter_command_decoder_class_init (MilterCommandDecoderClass *klass)
                      NULL,
                      G_TYPE_NONE,
                      2,
-                     G_TYPE_STRING,
+                     G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE,
 #if GLIB_SIZEOF_SIZE_T == 8
                      G_TYPE_UINT64
 #else
diff --git a/milter/core/milter-reply-signals.c b/milter/core/milter-reply-signals.c
index 5b9c6e2..e234a0a 100644
--- a/milter/core/milter-reply-signals.c
+++ b/milter/core/milter-reply-signals.c
@@ -195,7 +195,7 @@ base_init (gpointer klass)
                      NULL,
                      G_TYPE_NONE,
                      2,
-                     G_TYPE_STRING,
+                     G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE,
 #if GLIB_SIZEOF_SIZE_T == 8
                      G_TYPE_UINT64
 #else
diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index 6194cbf..dbf62ad 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -364,7 +364,7 @@ pending_body_request_new (const gchar *chunk, gsize size)
     PendingMessageRequest *request;
 
     request = pending_message_request_new(MILTER_COMMAND_BODY);
-    request->arguments.body.chunk = g_strndup(chunk, size);
+    request->arguments.body.chunk = g_memdup(chunk, size);
     request->arguments.body.size = size;
 
     return request;
@@ -376,7 +376,7 @@ pending_end_of_message_request_new (const gchar *chunk, gsize size)
     PendingMessageRequest *request;
 
     request = pending_message_request_new(MILTER_COMMAND_END_OF_MESSAGE);
-    request->arguments.end_of_message.chunk = g_strndup(chunk, size);
+    request->arguments.end_of_message.chunk = g_memdup(chunk, size);
     request->arguments.end_of_message.size = size;
 
     return request;
@@ -4105,7 +4105,7 @@ milter_manager_children_end_of_message (MilterManagerChildren *children,
 
     if (priv->end_of_message_chunk)
         g_free(priv->end_of_message_chunk);
-    priv->end_of_message_chunk = g_strdup(chunk);
+    priv->end_of_message_chunk = g_memdup(chunk, size);
     priv->end_of_message_size = size;
     if (priv->body_file)
         g_io_channel_seek_position(priv->body_file, 0, G_SEEK_SET, NULL);
diff --git a/milter/manager/milter-manager-control-command-decoder.c b/milter/manager/milter-manager-control-command-decoder.c
index de47820..55870ac 100644
--- a/milter/manager/milter-manager-control-command-decoder.c
+++ b/milter/manager/milter-manager-control-command-decoder.c
@@ -67,10 +67,14 @@ milter_manager_control_command_decoder_class_init (MilterManagerControlCommandDe
                      NULL, NULL,
 #if GLIB_SIZEOF_SIZE_T == 8
                      NULL,
-                     G_TYPE_NONE, 2, G_TYPE_STRING, G_TYPE_UINT64
+                     G_TYPE_NONE, 2,
+                     G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE,
+                     G_TYPE_UINT64
 #else
                      NULL,
-                     G_TYPE_NONE, 2, G_TYPE_STRING, G_TYPE_UINT
+                     G_TYPE_NONE, 2,
+                     G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE,
+                     G_TYPE_UINT
 #endif
             );
 
diff --git a/milter/manager/milter-manager-control-reply-decoder.c b/milter/manager/milter-manager-control-reply-decoder.c
index 3f7a1be..44712db 100644
--- a/milter/manager/milter-manager-control-reply-decoder.c
+++ b/milter/manager/milter-manager-control-reply-decoder.c
@@ -63,10 +63,14 @@ milter_manager_control_reply_decoder_class_init (MilterManagerControlReplyDecode
                      NULL, NULL,
  #if GLIB_SIZEOF_SIZE_T == 8
                      NULL,
-                     G_TYPE_NONE, 2, G_TYPE_STRING, G_TYPE_UINT64
+                     G_TYPE_NONE, 2,
+                     G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE,
+                     G_TYPE_UINT64
 #else
                      NULL,
-                     G_TYPE_NONE, 2, G_TYPE_STRING, G_TYPE_UINT
+                     G_TYPE_NONE, 2,
+                     G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE,
+                     G_TYPE_UINT
 #endif
             );
 }
diff --git a/milter/server/milter-server-context.c b/milter/server/milter-server-context.c
index 24130d3..b4a842f 100644
--- a/milter/server/milter-server-context.c
+++ b/milter/server/milter-server-context.c
@@ -295,10 +295,14 @@ milter_server_context_class_init (MilterServerContextClass *klass)
                      stop_on_accumulator, NULL,
 #if GLIB_SIZEOF_SIZE_T == 8
                      NULL,
-                     G_TYPE_BOOLEAN, 2, G_TYPE_STRING, G_TYPE_UINT64
+                     G_TYPE_BOOLEAN, 2,
+                     G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE,
+                     G_TYPE_UINT64
 #else
                      NULL,
-                     G_TYPE_BOOLEAN, 2, G_TYPE_STRING, G_TYPE_UINT
+                     G_TYPE_BOOLEAN, 2,
+                     G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE,
+                     G_TYPE_UINT
 #endif
             );
 
@@ -311,10 +315,14 @@ milter_server_context_class_init (MilterServerContextClass *klass)
                      stop_on_accumulator, NULL,
 #if GLIB_SIZEOF_SIZE_T == 8
                      NULL,
-                     G_TYPE_BOOLEAN, 2, G_TYPE_STRING, G_TYPE_UINT64
+                     G_TYPE_BOOLEAN, 2,
+                     G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE,
+                     G_TYPE_UINT64
 #else
                      NULL,
-                     G_TYPE_BOOLEAN, 2, G_TYPE_STRING, G_TYPE_UINT
+                     G_TYPE_BOOLEAN, 2,
+                     G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE,
+                     G_TYPE_UINT
 #endif
             );
 
-- 
2.43.0


From 086800b84ef0e92771ef448801dfe8a5cba3393c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:44 +0000
Subject: [PATCH 09/66] fix: header changes made by children are passed on
 completely and in order

---
 milter/core/milter-headers.c             |   2 +-
 milter/manager/milter-manager-children.c | 171 +++++++++++++++++------
 2 files changed, 127 insertions(+), 46 deletions(-)

diff --git a/milter/core/milter-headers.c b/milter/core/milter-headers.c
index 1f4d5cf..d84d494 100644
--- a/milter/core/milter-headers.c
+++ b/milter/core/milter-headers.c
@@ -424,7 +424,7 @@ milter_headers_lookup_by_name_with_index (MilterHeaders *headers,
     for (node = priv->header_list; node; node = g_list_next(node)) {
         MilterHeader *header = node->data;
 
-        if (!string_equal(header->name, name))
+        if (g_ascii_strcasecmp(header->name, name) != 0)
             continue;
 
         found_count++;
diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index dbf62ad..fe018fa 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -1245,68 +1245,149 @@ send_command_to_child (MilterManagerChildren *children,
     return status;
 }
 
+static gboolean
+is_same_header (const GList *node1, const GList *node2)
+{
+    const MilterHeader *header1 = node1->data;
+    const MilterHeader *header2 = node2->data;
+
+    return g_strcmp0(header1->name, header2->name) == 0 &&
+        g_strcmp0(header1->value, header2->value) == 0;
+}
+
+static gboolean
+is_changeable_header (const GList *original, const GList *current)
+{
+    const MilterHeader *original_header = original->data;
+    const MilterHeader *current_header = current->data;
+
+    /* changing to an empty value means deleting */
+    return g_strcmp0(original_header->name, current_header->name) == 0 &&
+        current_header->value && *(current_header->value);
+}
+
+static gint
+header_index_in_same_name (const GList *node)
+{
+    const MilterHeader *header = node->data;
+    gint index = 0;
+
+    for (; node; node = g_list_previous(node)) {
+        const MilterHeader *previous_header = node->data;
+
+        if (g_ascii_strcasecmp(previous_header->name, header->name) == 0)
+            index++;
+    }
+
+    return index;
+}
+
 static void
 emit_header_signals (MilterManagerChildren *children)
 {
     MilterManagerChildrenPrivate *priv;
-    const GList *header_list, *node;
-    MilterHeaders *processing_headers;
-    gint i;
+    const GList *original, *current;
+    const GList *node, *other_node;
+    GList *deleted_headers = NULL;
+    GList *inserted_headers = NULL;
+    guint n_originals, n_currents, i, j;
+    guint *lengths;
+    guint position = 0;
 
     priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
 
-    processing_headers = milter_headers_copy(priv->original_headers);
-    header_list = milter_headers_get_list(priv->headers);
-
-    /* FIXME the following process admits improvement. */
-    for (node = header_list, i = 0;
-         node;
-         node = g_list_next(node), i++) {
-        MilterHeader *header = node->data;
-        MilterHeader *found_header;
-        gint index;
-
-        if (milter_headers_find(processing_headers, header)) {
-            milter_headers_remove(processing_headers, header);
-            continue;
+    original = milter_headers_get_list(priv->original_headers);
+    current = milter_headers_get_list(priv->headers);
+
+    while (original && current && is_same_header(original, current)) {
+        original = g_list_next(original);
+        current = g_list_next(current);
+        position++;
+    }
+
+    /* the longest common headers are kept */
+    n_originals = g_list_length((GList *)original);
+    n_currents = g_list_length((GList *)current);
+    lengths = g_new0(guint, (gsize)(n_originals + 1) * (n_currents + 1));
+#define COMMON_LENGTH(i, j) lengths[(gsize)(i) * (n_currents + 1) + (j)]
+    node = g_list_last((GList *)original);
+    for (i = n_originals; i > 0; i--) {
+        other_node = g_list_last((GList *)current);
+        for (j = n_currents; j > 0; j--) {
+            if (is_same_header(node, other_node)) {
+                COMMON_LENGTH(i - 1, j - 1) = COMMON_LENGTH(i, j) + 1;
+            } else {
+                COMMON_LENGTH(i - 1, j - 1) = MAX(COMMON_LENGTH(i, j - 1),
+                                                  COMMON_LENGTH(i - 1, j));
+            }
+            other_node = g_list_previous(other_node);
         }
+        node = g_list_previous(node);
+    }
+
+    /* change-header and delete-header use the positions in the original
+     * headers. So headers are deleted from the last one after all changes
+     * and insert-header uses the position in the resulting headers. */
+    i = j = 0;
+    while (original || current) {
+        if (original && current && is_same_header(original, current)) {
+            original = g_list_next(original);
+            current = g_list_next(current);
+            i++;
+            j++;
+            position++;
+        } else if (original && current &&
+                   is_changeable_header(original, current) &&
+                   COMMON_LENGTH(i, j) == COMMON_LENGTH(i + 1, j + 1)) {
+            MilterHeader *header = current->data;
 
-        found_header = milter_headers_lookup_by_name(processing_headers,
-                                                     header->name);
-        if (!found_header) {
-            g_signal_emit_by_name(children, "insert-header",
-                                  i, header->name, header->value);
-            continue;
-        }
-        index = milter_headers_index_in_same_header_name(priv->original_headers,
-                                                         found_header);
-        if (index == -1) {
-            g_signal_emit_by_name(children, "add-header",
-                                  header->name, header->value);
-        } else {
             g_signal_emit_by_name(children, "change-header",
-                                  header->name, index, header->value);
-            milter_headers_remove(processing_headers, found_header);
+                                  header->name,
+                                  header_index_in_same_name(original),
+                                  header->value);
+            original = g_list_next(original);
+            current = g_list_next(current);
+            i++;
+            j++;
+            position++;
+        } else if (current &&
+                   COMMON_LENGTH(i, j) == COMMON_LENGTH(i, j + 1)) {
+            inserted_headers = g_list_append(inserted_headers, current->data);
+            inserted_headers = g_list_append(inserted_headers,
+                                             GUINT_TO_POINTER(position));
+            current = g_list_next(current);
+            j++;
+            position++;
+        } else {
+            deleted_headers = g_list_prepend(deleted_headers,
+                                             (gpointer)original);
+            original = g_list_next(original);
+            i++;
         }
     }
+#undef COMMON_LENGTH
+    g_free(lengths);
 
-    if (milter_headers_length(processing_headers) > 0) {
-        header_list = milter_headers_get_list(processing_headers);
+    for (node = deleted_headers; node; node = g_list_next(node)) {
+        const GList *deleted_node = node->data;
+        MilterHeader *header = deleted_node->data;
 
-        for (node = g_list_last((GList *)header_list);
-             node;
-             node = g_list_previous(node)) {
-            MilterHeader *header = node->data;
-            gint index;
+        g_signal_emit_by_name(children, "delete-header",
+                              header->name,
+                              header_index_in_same_name(deleted_node));
+    }
 
-            index = milter_headers_index_in_same_header_name(priv->original_headers,
-                                                             header);
-            g_signal_emit_by_name(children, "delete-header",
-                                  header->name, index);
-        }
+    for (node = inserted_headers; node; node = g_list_next(node)) {
+        MilterHeader *header = node->data;
+
+        node = g_list_next(node);
+        g_signal_emit_by_name(children, "insert-header",
+                              GPOINTER_TO_UINT(node->data),
+                              header->name, header->value);
     }
 
-    g_object_unref(processing_headers);
+    g_list_free(deleted_headers);
+    g_list_free(inserted_headers);
 }
 
 static void
-- 
2.43.0


From bc5e1b57f67a2cdf680ca3e8a0c1692bf77230eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:44 +0000
Subject: [PATCH 10/66] fix: the state of a message in a child ends with the
 message

---
 milter/server/milter-server-context.c | 82 +++++++++++++--------------
 1 file changed, 40 insertions(+), 42 deletions(-)

diff --git a/milter/server/milter-server-context.c b/milter/server/milter-server-context.c
index b4a842f..6ef6e24 100644
--- a/milter/server/milter-server-context.c
+++ b/milter/server/milter-server-context.c
@@ -1392,19 +1392,7 @@ process_next_state (MilterServerContext *context,
         milter_server_context_set_state(context, next_state);
         break;
     case MILTER_SERVER_CONTEXT_STATE_ABORT:
-        if (MILTER_STATUS_IS_PASS(priv->status) &&
-            (MILTER_SERVER_CONTEXT_STATE_DEFINE_MACRO <= priv->state &&
-             priv->state < MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE)) {
-            if (priv->state == MILTER_SERVER_CONTEXT_STATE_ENVELOPE_RECIPIENT &&
-                priv->envelope_recipient_status != MILTER_STATUS_DEFAULT) {
-                priv->status = priv->envelope_recipient_status;
-            } else {
-                priv->status = MILTER_STATUS_ABORT;
-            }
-        }
         milter_server_context_set_state(context, next_state);
-        emit_message_processed_signal(context);
-        milter_server_context_reset_message_related_data(context);
         break;
     case MILTER_SERVER_CONTEXT_STATE_ENVELOPE_FROM:
         priv->processing_message = TRUE;
@@ -1843,17 +1831,9 @@ milter_server_context_connect (MilterServerContext *context,
                         MILTER_SERVER_CONTEXT_STATE_CONNECT);
 }
 
-void
-milter_server_context_reset_message_related_data (MilterServerContext *context)
+static void
+reset_message_status (MilterServerContextPrivate *priv)
 {
-    MilterServerContextPrivate *priv;
-    MilterProtocolAgent *agent;
-
-    priv = MILTER_SERVER_CONTEXT_GET_PRIVATE(context);
-
-    agent = MILTER_PROTOCOL_AGENT(context);
-    milter_protocol_agent_clear_message_related_macros(agent);
-
     priv->skip_body = FALSE;
     priv->processing_message = FALSE;
     priv->envelope_recipient_status = MILTER_STATUS_DEFAULT;
@@ -1864,7 +1844,20 @@ milter_server_context_reset_message_related_data (MilterServerContext *context)
     }
     priv->process_body_count = 0;
     priv->sent_end_of_message = FALSE;
+}
+
+void
+milter_server_context_reset_message_related_data (MilterServerContext *context)
+{
+    MilterServerContextPrivate *priv;
+    MilterProtocolAgent *agent;
+
+    priv = MILTER_SERVER_CONTEXT_GET_PRIVATE(context);
+
+    agent = MILTER_PROTOCOL_AGENT(context);
+    milter_protocol_agent_clear_message_related_macros(agent);
 
+    reset_message_status(priv);
     dispose_message_result(priv);
 }
 
@@ -1891,21 +1884,8 @@ milter_server_context_envelope_from (MilterServerContext *context,
     milter_debug("[%u] [server][send][envelope-from] <%s>: %s",
                  tag, from, name);
 
-    /* TODO:
-     * Those information will be cleared if both [abort]
-     * packet and [envelope-from] packet are flushed at the
-     * same time. Because
-     * milter_server_context_reset_message_related_data() is
-     * called in process_next_state() when [abort] packet is
-     * flushed:
-     *
-     *   milter_server_context_abort() ->
-     *   milter_server_context_envelope_from() ->
-     *   (flushed) ->
-     *   process_next_state() for [abort] ->
-     *   milter_server_context_reset_message_related_data()
-     *     resets data set at milter_server_context_envelope_from().
-     */
+    reset_message_status(priv);
+    dispose_message_result(priv);
     ensure_message_result(priv);
     milter_message_result_set_from(priv->message_result, from);
     milter_message_result_set_state(priv->message_result,
@@ -2342,7 +2322,22 @@ milter_server_context_abort (MilterServerContext *context)
 
     success = write_packet(context, packet, packet_size,
                            MILTER_SERVER_CONTEXT_STATE_ABORT);
-    priv->processing_message = FALSE;
+
+    /* The next message may be started before the abort is flushed. So the
+     * aborted message must be finished here. */
+    if (MILTER_STATUS_IS_PASS(priv->status) &&
+        (MILTER_SERVER_CONTEXT_STATE_DEFINE_MACRO <= priv->state &&
+         priv->state < MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE)) {
+        if (priv->state == MILTER_SERVER_CONTEXT_STATE_ENVELOPE_RECIPIENT &&
+            priv->envelope_recipient_status != MILTER_STATUS_DEFAULT) {
+            priv->status = priv->envelope_recipient_status;
+        } else {
+            priv->status = MILTER_STATUS_ABORT;
+        }
+    }
+    emit_message_processed_signal(context);
+    milter_server_context_reset_message_related_data(context);
+
     return success;
 }
 
@@ -2680,7 +2675,8 @@ cb_decoder_reply_code (MilterReplyDecoder *decoder,
                                   code, extended_code, message);
             if (MILTER_SERVER_CONTEXT_STATE_ENVELOPE_FROM <= priv->state &&
                 priv->state <= MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE &&
-                priv->state != MILTER_SERVER_CONTEXT_STATE_ENVELOPE_RECIPIENT) {
+                priv->state != MILTER_SERVER_CONTEXT_STATE_ENVELOPE_RECIPIENT &&
+                priv->state != MILTER_SERVER_CONTEXT_STATE_UNKNOWN) {
                 emit_message_processed_signal(context);
             }
         }
@@ -2743,7 +2739,8 @@ cb_decoder_temporary_failure (MilterReplyDecoder *decoder, gpointer user_data)
     g_signal_emit_by_name(context, "temporary-failure");
     if (MILTER_SERVER_CONTEXT_STATE_ENVELOPE_FROM <= priv->state &&
         priv->state <= MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE &&
-        priv->state != MILTER_SERVER_CONTEXT_STATE_ENVELOPE_RECIPIENT) {
+        priv->state != MILTER_SERVER_CONTEXT_STATE_ENVELOPE_RECIPIENT &&
+        priv->state != MILTER_SERVER_CONTEXT_STATE_UNKNOWN) {
         emit_message_processed_signal(context);
     }
 
@@ -2805,7 +2802,8 @@ cb_decoder_reject (MilterReplyDecoder *decoder, gpointer user_data)
     g_signal_emit_by_name(context, "reject");
     if (MILTER_SERVER_CONTEXT_STATE_ENVELOPE_FROM <= priv->state &&
         priv->state <= MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE &&
-        priv->state != MILTER_SERVER_CONTEXT_STATE_ENVELOPE_RECIPIENT) {
+        priv->state != MILTER_SERVER_CONTEXT_STATE_ENVELOPE_RECIPIENT &&
+        priv->state != MILTER_SERVER_CONTEXT_STATE_UNKNOWN) {
         emit_message_processed_signal(context);
     }
 
@@ -3288,9 +3286,9 @@ cb_decoder_skip (MilterReplyDecoder *decoder, gpointer user_data)
                      tag, name, g_timer_elapsed(priv->elapsed, NULL));
         if (!check_reply_after_quit(context, priv->state, "skip"))
             return;
+        priv->skip_body = TRUE;
         g_signal_emit_by_name(context, "skip");
         clear_process_body_count(context);
-        priv->skip_body = TRUE;
     } else {
         invalid_state(context, priv->state, "skip", "body");
     }
-- 
2.43.0


From 1ef97ed8bd277fe545766247a37d31183ab17b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:25 +0000
Subject: [PATCH 11/66] fix: every child is offered what the MTA offered

---
 milter/manager/milter-manager-children.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index fe018fa..10950b6 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -69,6 +69,7 @@ struct _MilterManagerChildrenPrivate
     MilterManagerConfiguration *configuration;
     MilterMacrosRequests *macros_requests;
     MilterOption *option;
+    MilterActionFlags initial_actions;
     MilterStepFlags initial_yes_steps;
     MilterStepFlags requested_yes_steps;
     gboolean negotiated;
@@ -269,6 +270,7 @@ milter_manager_children_init (MilterManagerChildren *milter)
     priv->milters = NULL;
     priv->macros_requests = milter_macros_requests_new();
     priv->option = NULL;
+    priv->initial_actions = MILTER_ACTION_NONE;
     priv->initial_yes_steps = MILTER_STEP_NONE;
     priv->requested_yes_steps = MILTER_STEP_NONE;
     priv->negotiated = FALSE;
@@ -2811,6 +2813,9 @@ reply_negotiate (MilterManagerChildren *children)
                      priv->tag);
     }
 
+    milter_option_set_action(priv->option,
+                             milter_option_get_action(priv->option) &
+                             priv->initial_actions);
     milter_option_remove_step(priv->option,
                               MILTER_STEP_NO_EVENT_MASK |
                               (MILTER_STEP_YES_MASK &
@@ -3225,14 +3230,17 @@ milter_manager_children_negotiate (MilterManagerChildren *children,
 
     if (priv->option)
         g_object_unref(priv->option);
-    priv->option = option;
-    if (priv->option) {
-        g_object_ref(priv->option);
-        if (milter_option_get_version(priv->option) >
+    priv->option = NULL;
+    if (option) {
+        if (milter_option_get_version(option) >
             MAX_SUPPORTED_MILTER_PROTOCOL_VERSION) {
-            milter_option_set_version(priv->option,
+            milter_option_set_version(option,
                                       MAX_SUPPORTED_MILTER_PROTOCOL_VERSION);
         }
+        /* Replies of children are merged into it. The passed option
+         * must not be changed because all children are offered it. */
+        priv->option = milter_option_copy(option);
+        priv->initial_actions = milter_option_get_action(priv->option);
         priv->initial_yes_steps = milter_option_get_step_yes(priv->option);
     }
 
-- 
2.43.0


From 79b22d288630879c83e1113c1a668fc66fa2a2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:08 +0000
Subject: [PATCH 12/66] fix: headers and a body given by a child reach the next
 children

When a child added headers to a message without headers, replaced the
body of a message without a body or deleted all headers, the following
children got the commands of the original message: added headers and
the new body were not passed on, and after all headers were deleted the
session hung. The last part of the original body sent with the
end-of-message is now dropped too when the body is replaced.
---
 milter/manager/milter-manager-children.c | 38 +++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index 10950b6..f712b22 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -1446,6 +1446,34 @@ fetch_first_command_for_child_in_queue (MilterServerContext *child,
     return -1;
 }
 
+static void
+update_command_queue (MilterManagerChildrenPrivate *priv)
+{
+    GList *node;
+
+    node = g_list_find(priv->command_queue,
+                       GINT_TO_POINTER(MILTER_COMMAND_END_OF_MESSAGE));
+    if (!node)
+        return;
+
+    /* A child may have added headers or a body to a message that had none
+     * or deleted all headers. */
+    if (priv->replaced_body &&
+        !g_list_find(priv->command_queue,
+                     GINT_TO_POINTER(MILTER_COMMAND_BODY)))
+        priv->command_queue =
+            g_list_insert_before(priv->command_queue, node,
+                                 GINT_TO_POINTER(MILTER_COMMAND_BODY));
+
+    priv->command_queue =
+        g_list_remove(priv->command_queue,
+                      GINT_TO_POINTER(MILTER_COMMAND_HEADER));
+    if (priv->headers && milter_headers_length(priv->headers) > 0)
+        priv->command_queue =
+            g_list_prepend(priv->command_queue,
+                           GINT_TO_POINTER(MILTER_COMMAND_HEADER));
+}
+
 static MilterStatus
 send_first_command_to_next_child (MilterManagerChildren *children,
                                   MilterServerContext *context)
@@ -1467,6 +1495,7 @@ send_first_command_to_next_child (MilterManagerChildren *children,
         return MILTER_STATUS_PROGRESS;
     }
 
+    update_command_queue(priv);
     first_command = fetch_first_command_for_child_in_queue(next_child,
                                                            &priv->command_queue);
     if (first_command == -1)
@@ -2198,8 +2227,15 @@ cb_replace_body (MilterServerContext *context,
                            "<%" G_GSIZE_FORMAT ">", chunk_size))
         return;
 
-    if (!priv->replaced_body_for_each_child)
+    if (!priv->replaced_body_for_each_child) {
         dispose_body_related_data(priv);
+        /* the new body replaces also the last part of the original one */
+        if (priv->end_of_message_chunk) {
+            g_free(priv->end_of_message_chunk);
+            priv->end_of_message_chunk = NULL;
+        }
+        priv->end_of_message_size = 0;
+    }
 
     if (!write_body(children, chunk, chunk_size))
         return;
-- 
2.43.0


From 1feac429fc928b7dfa522ea1a0b13eca3247442e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:30 +0000
Subject: [PATCH 13/66] fix: don't reply to a command negotiated as needing no
 reply

---
 milter/client/milter-client-context.c | 50 +++++++++++++++++++++++++++
 1 file changed, 50 insertions(+)

diff --git a/milter/client/milter-client-context.c b/milter/client/milter-client-context.c
index a0e8e90..39ac384 100644
--- a/milter/client/milter-client-context.c
+++ b/milter/client/milter-client-context.c
@@ -3354,12 +3354,62 @@ create_reply_packet (MilterClientContext *context, MilterStatus status,
     }
 }
 
+static gboolean
+is_reply_needed (MilterClientContextPrivate *priv)
+{
+    MilterStepFlags no_reply_step;
+
+    switch (priv->state) {
+    case MILTER_CLIENT_CONTEXT_STATE_CONNECT_REPLIED:
+        no_reply_step = MILTER_STEP_NO_REPLY_CONNECT;
+        break;
+    case MILTER_CLIENT_CONTEXT_STATE_HELO_REPLIED:
+        no_reply_step = MILTER_STEP_NO_REPLY_HELO;
+        break;
+    case MILTER_CLIENT_CONTEXT_STATE_ENVELOPE_FROM_REPLIED:
+        no_reply_step = MILTER_STEP_NO_REPLY_ENVELOPE_FROM;
+        break;
+    case MILTER_CLIENT_CONTEXT_STATE_ENVELOPE_RECIPIENT_REPLIED:
+        no_reply_step = MILTER_STEP_NO_REPLY_ENVELOPE_RECIPIENT;
+        break;
+    case MILTER_CLIENT_CONTEXT_STATE_UNKNOWN_REPLIED:
+        no_reply_step = MILTER_STEP_NO_REPLY_UNKNOWN;
+        break;
+    case MILTER_CLIENT_CONTEXT_STATE_DATA_REPLIED:
+        no_reply_step = MILTER_STEP_NO_REPLY_DATA;
+        break;
+    case MILTER_CLIENT_CONTEXT_STATE_HEADER_REPLIED:
+        no_reply_step = MILTER_STEP_NO_REPLY_HEADER;
+        break;
+    case MILTER_CLIENT_CONTEXT_STATE_END_OF_HEADER_REPLIED:
+        no_reply_step = MILTER_STEP_NO_REPLY_END_OF_HEADER;
+        break;
+    case MILTER_CLIENT_CONTEXT_STATE_BODY_REPLIED:
+        no_reply_step = MILTER_STEP_NO_REPLY_BODY;
+        break;
+    default:
+        return TRUE;
+    }
+
+    if (!priv->option)
+        return TRUE;
+
+    return !(milter_option_get_step(priv->option) & no_reply_step);
+}
+
 static gboolean
 reply (MilterClientContext *context, MilterStatus status)
 {
     const gchar *packet = NULL;
     gsize packet_size;
 
+    if (!is_reply_needed(MILTER_CLIENT_CONTEXT_GET_PRIVATE(context))) {
+        /* The MTA doesn't wait for a reply. A needless reply
+         * is treated as the reply for a following command. */
+        dispose_reply(MILTER_CLIENT_CONTEXT_GET_PRIVATE(context));
+        return TRUE;
+    }
+
     create_reply_packet(context, status, &packet, &packet_size);
 
     if (!packet)
-- 
2.43.0


From 2cfcaa0e09dfbcda712e9813976630ca1833ee7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:30 +0000
Subject: [PATCH 14/66] fix: commands without reply may follow each other
 before they are flushed

---
 milter/manager/milter-manager-children.c | 123 ++++++++++++++---------
 milter/server/milter-server-context.c    |  32 +++++-
 2 files changed, 105 insertions(+), 50 deletions(-)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index f712b22..b0bb1c2 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -1202,6 +1202,52 @@ emit_replace_body_signal (MilterManagerChildren *children)
         return emit_replace_body_signal_file(children);
 }
 
+static void
+continue_without_reply (MilterManagerChildren *children,
+                        MilterServerContext *context,
+                        MilterServerContextState state)
+{
+    /* The command may not be flushed yet. */
+    milter_server_context_set_state(context, state);
+    g_signal_emit_by_name(context, "continue");
+}
+
+static void
+continue_no_reply_children (MilterManagerChildren *children,
+                            GList *targets,
+                            MilterServerContextState state)
+{
+    MilterManagerChildrenPrivate *priv;
+    GList *child;
+
+    priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
+    for (child = targets; child; child = g_list_next(child)) {
+        MilterServerContext *context = MILTER_SERVER_CONTEXT(child->data);
+
+        if (milter_server_context_need_reply(context, state))
+            continue;
+        if (!g_queue_find(priv->reply_queue, context))
+            continue;
+        continue_without_reply(children, context, state);
+    }
+}
+
+static gboolean
+is_sent_without_reply (MilterManagerChildren *children,
+                       MilterServerContext *context,
+                       MilterServerContextState state,
+                       MilterStepFlags skip_step)
+{
+    if (milter_server_context_need_reply(context, state))
+        return FALSE;
+
+    /* A skipped command is continued by the context. */
+    if (milter_server_context_is_enable_step(context, skip_step))
+        return FALSE;
+
+    return get_first_child_in_command_waiting_child_queue(children) == context;
+}
+
 static MilterStatus
 send_command_to_child (MilterManagerChildren *children,
                        MilterServerContext *context,
@@ -1223,9 +1269,13 @@ send_command_to_child (MilterManagerChildren *children,
         priv->processing_state = MILTER_SERVER_CONTEXT_STATE_END_OF_HEADER;
         if (milter_server_context_end_of_header(context)) {
             status = MILTER_STATUS_PROGRESS;
-            if (!milter_server_context_need_reply(context,
-                                                 priv->processing_state)) {
-                g_signal_emit_by_name(context, "continue");
+            if (is_sent_without_reply(
+                    children, context,
+                    MILTER_SERVER_CONTEXT_STATE_END_OF_HEADER,
+                    MILTER_STEP_NO_END_OF_HEADER)) {
+                continue_without_reply(
+                    children, context,
+                    MILTER_SERVER_CONTEXT_STATE_END_OF_HEADER);
             }
         }
         break;
@@ -3473,12 +3523,7 @@ milter_manager_children_connect (MilterManagerChildren *children,
     }
     milter_debug("[%u] [children][connect][sent] %d",
                  priv->tag, n_queued_milters);
-    for (child = targets; child; child = g_list_next(child)) {
-        MilterServerContext *context = MILTER_SERVER_CONTEXT(child->data);
-        if (!milter_server_context_need_reply(context, state)) {
-            cb_continue(context, children);
-        }
-    }
+    continue_no_reply_children(children, targets, state);
     g_list_free(targets);
 
     return success;
@@ -3516,12 +3561,7 @@ milter_manager_children_helo (MilterManagerChildren *children,
     }
     milter_debug("[%u] [children][helo][sent] %d",
                  priv->tag, n_queued_milters);
-    for (child = targets; child; child = g_list_next(child)) {
-        MilterServerContext *context = MILTER_SERVER_CONTEXT(child->data);
-        if (!milter_server_context_need_reply(context, state)) {
-            cb_continue(context, children);
-        }
-    }
+    continue_no_reply_children(children, targets, state);
     g_list_free(targets);
 
     return success;
@@ -3560,12 +3600,7 @@ milter_manager_children_envelope_from (MilterManagerChildren *children,
     }
     milter_debug("[%u] [children][envelope-from][sent] %d",
                  priv->tag, n_queued_milters);
-    for (child = targets; child; child = g_list_next(child)) {
-        MilterServerContext *context = MILTER_SERVER_CONTEXT(child->data);
-        if (!milter_server_context_need_reply(context, state)) {
-            cb_continue(context, children);
-        }
-    }
+    continue_no_reply_children(children, targets, state);
     g_list_free(targets);
 
     return success;
@@ -3604,12 +3639,7 @@ milter_manager_children_envelope_recipient (MilterManagerChildren *children,
     }
     milter_debug("[%u] [children][envelope-recipient][sent] %d",
                  priv->tag, n_queued_milters);
-    for (child = targets; child; child = g_list_next(child)) {
-        MilterServerContext *context = MILTER_SERVER_CONTEXT(child->data);
-        if (!milter_server_context_need_reply(context, state)) {
-            cb_continue(context, children);
-        }
-    }
+    continue_no_reply_children(children, targets, state);
     g_list_free(targets);
 
     return success;
@@ -3650,12 +3680,7 @@ milter_manager_children_data (MilterManagerChildren *children)
             success = TRUE;
     }
     milter_debug("[%u] [children][data][sent] %d", priv->tag, n_queued_milters);
-    for (child = targets; child; child = g_list_next(child)) {
-        MilterServerContext *context = MILTER_SERVER_CONTEXT(child->data);
-        if (!milter_server_context_need_reply(context, state)) {
-            cb_continue(context, children);
-        }
-    }
+    continue_no_reply_children(children, targets, state);
     g_list_free(targets);
 
     return success;
@@ -3706,12 +3731,7 @@ milter_manager_children_unknown (MilterManagerChildren *children,
     }
     milter_debug("[%u] [children][unknown][sent] %d",
                  priv->tag, n_queued_milters);
-    for (child = targets; child; child = g_list_next(child)) {
-        MilterServerContext *context = MILTER_SERVER_CONTEXT(child->data);
-        if (!milter_server_context_need_reply(context, state)) {
-            cb_continue(context, children);
-        }
-    }
+    continue_no_reply_children(children, targets, state);
     g_list_free(targets);
 
     return success;
@@ -3741,11 +3761,13 @@ send_next_header_to_child (MilterManagerChildren *children, MilterServerContext
     if (milter_server_context_header(context,
                                      header->name,
                                      header->value + value_offset)) {
-        MilterStatus status = MILTER_STATUS_PROGRESS;
-        if (!milter_server_context_need_reply(context, priv->processing_state)) {
-            g_signal_emit_by_name(context, "continue");
+        if (is_sent_without_reply(children, context,
+                                  MILTER_SERVER_CONTEXT_STATE_HEADER,
+                                  MILTER_STEP_NO_HEADERS)) {
+            continue_without_reply(children, context,
+                                   MILTER_SERVER_CONTEXT_STATE_HEADER);
         }
-        return status;
+        return MILTER_STATUS_PROGRESS;
     } else {
         MilterManagerChild *child;
 
@@ -4000,10 +4022,14 @@ milter_manager_children_body (MilterManagerChildren *children,
         milter_server_context_set_state(first_child, MILTER_SERVER_CONTEXT_STATE_BODY);
         g_signal_emit_by_name(first_child, "continue");
         return TRUE;
-    } else {
-        return milter_server_context_body(first_child, chunk, size);
     }
 
+    if (!milter_server_context_body(first_child, chunk, size))
+        return FALSE;
+    if (is_sent_without_reply(children, first_child, state,
+                              MILTER_STEP_NO_BODY))
+        continue_without_reply(children, first_child, state);
+    return TRUE;
 }
 
 static MilterStatus
@@ -4181,8 +4207,11 @@ send_body_to_child (MilterManagerChildren *children, MilterServerContext *contex
         status = send_body_to_child_file(children, context);
 
     if (status == MILTER_STATUS_PROGRESS &&
-        !milter_server_context_need_reply(context, priv->processing_state)) {
-        g_signal_emit_by_name(context, "continue");
+        is_sent_without_reply(children, context,
+                              MILTER_SERVER_CONTEXT_STATE_BODY,
+                              MILTER_STEP_NO_BODY)) {
+        continue_without_reply(children, context,
+                               MILTER_SERVER_CONTEXT_STATE_BODY);
     }
 
     if (status != MILTER_STATUS_PROGRESS)
diff --git a/milter/server/milter-server-context.c b/milter/server/milter-server-context.c
index 6ef6e24..3b2200b 100644
--- a/milter/server/milter-server-context.c
+++ b/milter/server/milter-server-context.c
@@ -1253,7 +1253,8 @@ flush_body (MilterServerContext *context)
     milter_debug("[%u] [server][timer][continue] [%s] %g",
                  tag, NULL_SAFE_NAME(name),
                  g_timer_elapsed(priv->elapsed, NULL));
-    g_timer_continue(priv->elapsed);
+    if (!milter_server_context_is_processing(context))
+        g_timer_continue(priv->elapsed);
     encoder = milter_agent_get_encoder(MILTER_AGENT(context));
     command_encoder = MILTER_COMMAND_ENCODER(encoder);
     append_body_response_queue(context);
@@ -1484,6 +1485,30 @@ flushed (MilterAgent *agent)
                  tag, NULL_SAFE_NAME(name));
 }
 
+static gboolean
+is_writable (MilterServerContext *context)
+{
+    MilterServerContextPrivate *priv;
+    GList *node;
+
+    if (!milter_server_context_is_processing(context))
+        return TRUE;
+
+    /* Only commands that aren't replied are still being flushed. */
+    priv = MILTER_SERVER_CONTEXT_GET_PRIVATE(context);
+    for (node = priv->next_states; node; node = g_list_next(node)) {
+        MilterServerContextState next_state;
+
+        next_state = GPOINTER_TO_UINT(node->data);
+        if (next_state == MILTER_SERVER_CONTEXT_STATE_ABORT)
+            continue;
+        if (milter_server_context_need_reply(context, next_state))
+            return FALSE;
+    }
+
+    return priv->next_states != NULL;
+}
+
 static gboolean
 write_packet (MilterServerContext *context,
               const gchar *packet, gsize packet_size,
@@ -1513,7 +1538,7 @@ write_packet (MilterServerContext *context,
     case MILTER_SERVER_CONTEXT_STATE_QUIT:
         break;
     default:
-        if (milter_server_context_is_processing(context)) {
+        if (!is_writable(context)) {
             gchar *inspected_current_state;
             gchar *inspected_next_state;
             GError *error = NULL;
@@ -1542,7 +1567,8 @@ write_packet (MilterServerContext *context,
             next_state != MILTER_SERVER_CONTEXT_STATE_BODY) {
             milter_debug("[%u] [server][timer][continue] %g: %s",
                          tag, g_timer_elapsed(priv->elapsed, NULL), name);
-            g_timer_continue(priv->elapsed);
+            if (!milter_server_context_is_processing(context))
+                g_timer_continue(priv->elapsed);
         }
         disable_timeout(context);
         priv->timeout_id = milter_event_loop_add_timeout(loop,
-- 
2.43.0


From 66f20cf7c1293ace46d2ed29870cc28e4072b843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:32 +0000
Subject: [PATCH 15/66] fix: a milter in evaluation mode decided the message

---
 milter/manager/milter-manager-children.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index b0bb1c2..749bb8a 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -1667,6 +1667,10 @@ cb_temporary_failure (MilterServerContext *context, gpointer user_data)
     case MILTER_SERVER_CONTEXT_STATE_BODY:
     case MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE:
         milter_server_context_set_processing_message(context, FALSE);
+        if (evaluation_mode) {
+            send_first_command_to_next_child(children, context);
+            break;
+        }
         emit_reply_for_message_oriented_command(children, state);
         milter_manager_children_abort(children);
         break;
@@ -1738,6 +1742,10 @@ cb_reject (MilterServerContext *context, gpointer user_data)
     case MILTER_SERVER_CONTEXT_STATE_BODY:
     case MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE:
         milter_server_context_set_processing_message(context, FALSE);
+        if (evaluation_mode) {
+            send_first_command_to_next_child(children, context);
+            break;
+        }
         emit_reply_for_message_oriented_command(children, state);
         milter_manager_children_abort(children);
         break;
@@ -1877,6 +1885,9 @@ cb_discard (MilterServerContext *context, gpointer user_data)
         remove_child_from_queue(children, context);
         break;
     case MILTER_SERVER_CONTEXT_STATE_ENVELOPE_RECIPIENT:
+        milter_server_context_set_processing_message(context, FALSE);
+        remove_child_from_queue(children, context);
+        break;
     case MILTER_SERVER_CONTEXT_STATE_UNKNOWN:
         remove_child_from_queue(children, context);
         break;
@@ -1885,6 +1896,10 @@ cb_discard (MilterServerContext *context, gpointer user_data)
     case MILTER_SERVER_CONTEXT_STATE_BODY:
     case MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE:
         milter_server_context_set_processing_message(context, FALSE);
+        if (evaluation_mode) {
+            send_first_command_to_next_child(children, context);
+            break;
+        }
         emit_reply_for_message_oriented_command(children, state);
         milter_manager_children_abort(children);
         break;
-- 
2.43.0


From 9c9aa0da3a3a24a948e27b1639be36969decfbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:37 +0000
Subject: [PATCH 16/66] fix: no reading timeout while waiting for the reply to
 a body

---
 milter/server/milter-server-context.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/milter/server/milter-server-context.c b/milter/server/milter-server-context.c
index 3b2200b..08c8297 100644
--- a/milter/server/milter-server-context.c
+++ b/milter/server/milter-server-context.c
@@ -1297,11 +1297,11 @@ process_next_state_body (MilterServerContext *context)
     milter_debug("[%u] [server][flushed][next][body] [%s] <%" G_GSIZE_FORMAT ">",
                  tag, NULL_SAFE_NAME(name), priv->body->len);
 
-    if (priv->body->len == 0)
-        return TRUE;
-
-    if (!milter_server_context_need_reply(context, state))
+    if (!milter_server_context_need_reply(context, state)) {
+        if (priv->body->len == 0)
+            return TRUE;
         return flush_body(context);
+    }
 
     disable_timeout(context);
     loop = milter_agent_get_event_loop(MILTER_AGENT(context));
-- 
2.43.0


From 9e9ee4f03d898b72204f7d09941a985dcf9228e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:37 +0000
Subject: [PATCH 17/66] fix: the fallback status of a failed milter decided
 nothing in a message

A milter that failed while it processed a header, an end of header, a body or
an end of message left the command without a reply or let it be accepted,
whatever its fallback status.
---
 milter/manager/milter-manager-children.c | 166 ++++++++++++++++-------
 1 file changed, 120 insertions(+), 46 deletions(-)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index 749bb8a..9e44970 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -104,6 +104,7 @@ struct _MilterManagerChildrenPrivate
 
     gboolean finished;
     gboolean emitted_reply_for_message_oriented_command;
+    gboolean replied_message_oriented_command;
 
     guint tag;
 
@@ -202,6 +203,9 @@ static MilterStatus send_next_command
 static MilterStatus send_first_command_to_next_child
                            (MilterManagerChildren *children,
                             MilterServerContext *context);
+static MilterStatus fallback_message_oriented_command
+                           (MilterManagerChildren *children,
+                            MilterServerContext *context);
 
 static NegotiateData *negotiate_data_new  (MilterManagerChildren *children,
                                            MilterManagerChild *child,
@@ -1473,6 +1477,7 @@ emit_reply_for_message_oriented_command (MilterManagerChildren *children,
         return;
 
     priv->emitted_reply_for_message_oriented_command = TRUE;
+    priv->replied_message_oriented_command = TRUE;
 
     if (state == MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE)
         emit_signals_on_end_of_message(children);
@@ -1545,6 +1550,9 @@ send_first_command_to_next_child (MilterManagerChildren *children,
         return MILTER_STATUS_PROGRESS;
     }
 
+    if (milter_server_context_is_quitted(next_child))
+        return fallback_message_oriented_command(children, next_child);
+
     update_command_queue(priv);
     first_command = fetch_first_command_for_child_in_queue(next_child,
                                                            &priv->command_queue);
@@ -1563,6 +1571,8 @@ handle_status (MilterManagerChildren *children,
     if (status == MILTER_STATUS_PROGRESS)
         return;
 
+    MILTER_MANAGER_CHILDREN_GET_PRIVATE(children)->
+        replied_message_oriented_command = TRUE;
     g_signal_emit_by_name(children, status_to_signal_name(status));
 }
 
@@ -1934,6 +1944,7 @@ cb_skip (MilterServerContext *context, gpointer user_data)
 
     priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
     if (priv->state < MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE) {
+        priv->replied_message_oriented_command = TRUE;
         g_signal_emit_by_name(children, "continue");
     } else {
         send_next_command(children, context, state);
@@ -2425,6 +2436,85 @@ cb_stopped (MilterServerContext *context, gpointer user_data)
     }
 }
 
+static MilterStatus
+get_child_fallback_status (MilterServerContext *context)
+{
+    MilterManagerChild *child = MILTER_MANAGER_CHILD(context);
+
+    if (milter_manager_child_is_evaluation_mode(child))
+        return MILTER_STATUS_ACCEPT;
+    return milter_manager_child_get_fallback_status(child);
+}
+
+/* Decides the processing message oriented command as if the failed child,
+ * the one that is processing the message, replied its fallback status. */
+static MilterStatus
+fallback_message_oriented_command (MilterManagerChildren *children,
+                                   MilterServerContext *context)
+{
+    MilterManagerChildrenPrivate *priv;
+    MilterServerContextState state;
+    MilterStatus fallback_status;
+
+    priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
+    fallback_status = get_child_fallback_status(context);
+
+    switch (fallback_status) {
+    case MILTER_STATUS_REJECT:
+    case MILTER_STATUS_TEMPORARY_FAILURE:
+    case MILTER_STATUS_DISCARD:
+        state = priv->processing_state;
+        compile_reply_status(children, state, fallback_status);
+        emit_reply_for_message_oriented_command(children, state);
+        milter_manager_children_abort(children);
+        return MILTER_STATUS_PROGRESS;
+    default:
+        compile_reply_status(children, priv->state, fallback_status);
+        return send_first_command_to_next_child(children, context);
+    }
+}
+
+static void
+fail_child (MilterManagerChildren *children, MilterServerContext *context)
+{
+    MilterManagerChildrenPrivate *priv;
+
+    priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
+
+    expire_child(children, context);
+
+    switch (priv->processing_state) {
+    case MILTER_SERVER_CONTEXT_STATE_NEGOTIATE:
+        remove_queue_in_negotiate(children, MILTER_MANAGER_CHILD(context));
+        break;
+    case MILTER_SERVER_CONTEXT_STATE_HEADER:
+    case MILTER_SERVER_CONTEXT_STATE_END_OF_HEADER:
+    case MILTER_SERVER_CONTEXT_STATE_BODY:
+    case MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE:
+        /* A child that isn't processing the message now is failed when
+         * its turn comes. */
+        if (!priv->replied_message_oriented_command &&
+            get_first_child_in_command_waiting_child_queue(children) == context)
+            fallback_message_oriented_command(children, context);
+        break;
+    case MILTER_SERVER_CONTEXT_STATE_CONNECT:
+    case MILTER_SERVER_CONTEXT_STATE_HELO:
+    case MILTER_SERVER_CONTEXT_STATE_ENVELOPE_FROM:
+    case MILTER_SERVER_CONTEXT_STATE_ENVELOPE_RECIPIENT:
+    case MILTER_SERVER_CONTEXT_STATE_DATA:
+    case MILTER_SERVER_CONTEXT_STATE_UNKNOWN:
+        if (!g_queue_find(priv->reply_queue, context))
+            break;
+        compile_reply_status(children, priv->processing_state,
+                             get_child_fallback_status(context));
+        remove_child_from_queue(children, context);
+        break;
+    default:
+        g_queue_remove(priv->reply_queue, context);
+        break;
+    }
+}
+
 static void
 cb_writing_timeout (MilterServerContext *context, gpointer user_data)
 {
@@ -2460,9 +2550,7 @@ cb_writing_timeout (MilterServerContext *context, gpointer user_data)
         g_free(fallback_status_name);
     }
 
-    compile_reply_status(children, state, fallback_status);
-    expire_child(children, context);
-    remove_child_from_queue(children, context);
+    fail_child(children, context);
 }
 
 static void
@@ -2500,9 +2588,7 @@ cb_reading_timeout (MilterServerContext *context, gpointer user_data)
         g_free(fallback_status_name);
     }
 
-    compile_reply_status(children, state, fallback_status);
-    expire_child(children, context);
-    remove_child_from_queue(children, context);
+    fail_child(children, context);
 }
 
 static void
@@ -2541,9 +2627,7 @@ cb_end_of_message_timeout (MilterServerContext *context, gpointer user_data)
         g_free(fallback_status_name);
     }
 
-    compile_reply_status(children, state, fallback_status);
-    expire_child(children, context);
-    remove_child_from_queue(children, context);
+    fail_child(children, context);
 }
 
 static void
@@ -2584,9 +2668,7 @@ cb_error (MilterErrorEmittable *emittable, GError *error, gpointer user_data)
         g_free(fallback_status_name);
     }
 
-    compile_reply_status(children, state, fallback_status);
-    expire_child(children, context);
-    remove_child_from_queue(children, context);
+    fail_child(children, context);
 }
 
 static void
@@ -2599,19 +2681,9 @@ cb_finished (MilterAgent *agent, gpointer user_data)
     children = MILTER_MANAGER_CHILDREN(user_data);
     priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
 
-    if (milter_server_context_is_processing(context)) {
-        MilterManagerChild *child;
-        MilterStatus fallback_status;
-        MilterServerContextState state;
-
-        child = MILTER_MANAGER_CHILD(context);
-        fallback_status = milter_manager_child_get_fallback_status(child);
-        state = milter_server_context_get_state(context);
-        milter_server_context_set_status(context, fallback_status);
-        compile_reply_status(children, state, fallback_status);
-    }
-
-    expire_child(children, context);
+    if (milter_server_context_is_processing(context))
+        milter_server_context_set_status(context,
+                                         get_child_fallback_status(context));
 
     if (milter_need_debug_log()) {
         gchar *state_name;
@@ -2628,28 +2700,15 @@ cb_finished (MilterAgent *agent, gpointer user_data)
         g_free(state_name);
     }
 
-    switch (priv->processing_state) {
-    case MILTER_SERVER_CONTEXT_STATE_NEGOTIATE:
-        remove_queue_in_negotiate(children, MILTER_MANAGER_CHILD(context));
-        break;
-    case MILTER_SERVER_CONTEXT_STATE_HEADER:
-    case MILTER_SERVER_CONTEXT_STATE_END_OF_HEADER:
-    case MILTER_SERVER_CONTEXT_STATE_BODY:
-    case MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE:
-        if (!priv->emitted_reply_for_message_oriented_command &&
-            milter_server_context_is_processing(context)) {
-            milter_debug("[%u] [children][unexpected] [%u] "
-                         "finish without receiving response: %s",
-                         priv->tag,
-                         milter_agent_get_tag(MILTER_AGENT(context)),
-                         milter_server_context_get_name(context));
-            send_first_command_to_next_child(children, context);
-        }
-        break;
-    default:
-        remove_child_from_queue(children, context);
-        break;
+    if (!milter_server_context_is_negotiated(context) ||
+        !milter_server_context_is_quitted(context)) {
+        fail_child(children, context);
+        return;
     }
+
+    expire_child(children, context);
+    if (g_queue_find(priv->reply_queue, context))
+        remove_child_from_queue(children, context);
 }
 
 static void
@@ -3475,6 +3534,9 @@ milter_manager_children_check_processing_message (MilterManagerChildren *childre
     GError *error = NULL;
 
     priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
+    if (priv->command_waiting_child_queue)
+        return TRUE;
+
     for (node = priv->milters; node; node = g_list_next(node)) {
         MilterServerContext *context;
 
@@ -3711,6 +3773,9 @@ send_command_to_first_waiting_child (MilterManagerChildren *children,
     if (!first_child)
         return MILTER_STATUS_NOT_CHANGE;
 
+    if (milter_server_context_is_quitted(first_child))
+        return fallback_message_oriented_command(children, first_child);
+
     return send_command_to_child(children, first_child, command);
 }
 
@@ -3831,6 +3896,7 @@ milter_manager_children_header (MilterManagerChildren *children,
     if (!priv->headers)
         priv->headers = milter_headers_new();
     milter_headers_append_header(priv->headers, name, value);
+    priv->replied_message_oriented_command = FALSE;
     init_command_waiting_child_queue(children, MILTER_COMMAND_HEADER);
 
     return MILTER_STATUS_PROGRESS ==
@@ -3865,6 +3931,7 @@ milter_manager_children_end_of_header (MilterManagerChildren *children)
 
     priv->state = MILTER_SERVER_CONTEXT_STATE_END_OF_HEADER;
     priv->processing_state = priv->state;
+    priv->replied_message_oriented_command = FALSE;
     init_command_waiting_child_queue(children, MILTER_COMMAND_END_OF_HEADER);
 
     return MILTER_STATUS_PROGRESS ==
@@ -4028,6 +4095,12 @@ milter_manager_children_body (MilterManagerChildren *children,
     priv->processing_state = state;
     priv->replaced_body_for_each_child = FALSE;
     priv->sending_body = FALSE;
+    priv->replied_message_oriented_command = FALSE;
+
+    if (milter_server_context_is_quitted(first_child)) {
+        fallback_message_oriented_command(children, first_child);
+        return TRUE;
+    }
 
     if (milter_server_context_get_skip_body(first_child)) {
         /*
@@ -4281,6 +4354,7 @@ milter_manager_children_end_of_message (MilterManagerChildren *children,
 
     priv->state = MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE;
     priv->processing_state = priv->state;
+    priv->replied_message_oriented_command = FALSE;
     return MILTER_STATUS_PROGRESS ==
         send_command_to_first_waiting_child(children,
                                             MILTER_COMMAND_END_OF_MESSAGE);
-- 
2.43.0


From b1b7250e5da7338cae2bf6aead6ae3d2b3d1007d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:19 +0000
Subject: [PATCH 18/66] fix: a failed negotiation let the session be accepted
 against its fallback status

The fallback status of a milter that couldn't be connected to or didn't
negotiate was replaced by the configuration's one, and was ignored when no
other milter had negotiated. A milter in evaluation mode decided.
---
 milter/manager/milter-manager-children.c | 26 +++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index 9e44970..3d7b6ec 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -74,6 +74,7 @@ struct _MilterManagerChildrenPrivate
     MilterStepFlags requested_yes_steps;
     gboolean negotiated;
     gboolean all_expired_as_fallback_on_negotiated;
+    MilterStatus fallback_status_on_negotiated;
     MilterServerContextState state;
     MilterServerContextState processing_state;
     GHashTable *reply_statuses;
@@ -2908,6 +2909,9 @@ check_fallback_status_on_negotiate (MilterManagerChildren *children)
         if (milter_server_context_is_negotiated(context))
             continue;
 
+        if (milter_manager_child_is_evaluation_mode(child))
+            continue;
+
         fallback_status = milter_manager_child_get_fallback_status(child);
         if (milter_status_compare(status, fallback_status) < 0) {
             status = fallback_status;
@@ -2924,6 +2928,8 @@ check_fallback_status_on_negotiate (MilterManagerChildren *children)
             milter_debug("[%u] [children][negotiate][fallback][all-expire][%s]",
                          priv->tag, status_name);
         }
+        priv->all_expired_as_fallback_on_negotiated = TRUE;
+        priv->fallback_status_on_negotiated = status;
         for (node = priv->milters; node; node = g_list_next(node)) {
             MilterServerContext *context;
 
@@ -2942,7 +2948,6 @@ check_fallback_status_on_negotiate (MilterManagerChildren *children)
                              priv->tag, status_name,
                              child_tag, MILTER_LOG_NULL_SAFE_STRING(child_name));
             }
-            priv->all_expired_as_fallback_on_negotiated = TRUE;
             expire_child(children, context);
         }
         break;
@@ -3490,6 +3495,16 @@ milter_manager_children_define_macro (MilterManagerChildren *children,
     return TRUE;
 }
 
+static void
+emit_fallback_status_on_negotiated (MilterManagerChildren *children)
+{
+    MilterManagerChildrenPrivate *priv;
+
+    priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
+    g_signal_emit_by_name(
+        children, status_to_signal_name(priv->fallback_status_on_negotiated));
+}
+
 static gboolean
 milter_manager_children_check_alive (MilterManagerChildren *children)
 {
@@ -3502,6 +3517,7 @@ milter_manager_children_check_alive (MilterManagerChildren *children)
     if (priv->all_expired_as_fallback_on_negotiated) {
         milter_debug("[%u] [children][alive][check][expired-on-negotiate]",
                      priv->tag);
+        emit_fallback_status_on_negotiated(children);
         return FALSE;
     }
 
@@ -3537,6 +3553,14 @@ milter_manager_children_check_processing_message (MilterManagerChildren *childre
     if (priv->command_waiting_child_queue)
         return TRUE;
 
+    if (priv->all_expired_as_fallback_on_negotiated) {
+        milter_debug("[%u] [children][message-processing][check]"
+                     "[expired-on-negotiate]",
+                     priv->tag);
+        emit_fallback_status_on_negotiated(children);
+        return FALSE;
+    }
+
     for (node = priv->milters; node; node = g_list_next(node)) {
         MilterServerContext *context;
 
-- 
2.43.0


From 87c505c43229a409d6e2259da109a176b8e8e459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:33 +0000
Subject: [PATCH 19/66] fix: an MTA silent from the start, after an abort or
 after macros was never timed out

---
 milter/client/milter-client-context.c | 39 +++++++++++++++++++--------
 milter/client/milter-client-private.h |  2 ++
 milter/client/milter-client.c         |  7 ++++-
 3 files changed, 36 insertions(+), 12 deletions(-)

diff --git a/milter/client/milter-client-context.c b/milter/client/milter-client-context.c
index 39ac384..a5d79de 100644
--- a/milter/client/milter-client-context.c
+++ b/milter/client/milter-client-context.c
@@ -27,6 +27,7 @@
 #include <milter/core.h>
 #include "../client.h"
 #include "milter-client-context.h"
+#include "milter-client-private.h"
 #include "milter-client-enum-types.h"
 
 enum
@@ -2642,27 +2643,42 @@ cb_timeout (gpointer data)
     return FALSE;
 }
 
-static gboolean
-write_packet_without_error_handling (MilterClientContext *context,
-                                     const gchar *packet, gsize packet_size,
-                                     GError **error)
+static void
+start_timeout (MilterClientContext *context)
 {
     MilterClientContextPrivate *priv;
     MilterEventLoop *loop;
-    gboolean success;
-    GError *agent_error = NULL;
-
-    if (!packet)
-        return FALSE;
 
     priv = MILTER_CLIENT_CONTEXT_GET_PRIVATE(context);
 
     disable_timeout(context);
     loop = milter_agent_get_event_loop(MILTER_AGENT(context));
+    if (!loop)
+        return;
     priv->timeout_id = milter_event_loop_add_timeout(loop,
                                                      priv->timeout,
                                                      cb_timeout,
                                                      context);
+}
+
+void
+milter_client_context_start_timeout (MilterClientContext *context)
+{
+    start_timeout(context);
+}
+
+static gboolean
+write_packet_without_error_handling (MilterClientContext *context,
+                                     const gchar *packet, gsize packet_size,
+                                     GError **error)
+{
+    gboolean success;
+    GError *agent_error = NULL;
+
+    if (!packet)
+        return FALSE;
+
+    start_timeout(context);
     success = milter_agent_write_packet(MILTER_AGENT(context),
                                         packet, packet_size,
                                         &agent_error);
@@ -3407,6 +3423,7 @@ reply (MilterClientContext *context, MilterStatus status)
         /* The MTA doesn't wait for a reply. A needless reply
          * is treated as the reply for a following command. */
         dispose_reply(MILTER_CLIENT_CONTEXT_GET_PRIVATE(context));
+        start_timeout(context);
         return TRUE;
     }
 
@@ -4036,7 +4053,7 @@ cb_decoder_define_macro (MilterDecoder *decoder, MilterCommand macro_context,
 {
     MilterClientContext *context = user_data;
 
-    disable_timeout(context);
+    start_timeout(context);
     milter_protocol_agent_set_macros_hash_table(MILTER_PROTOCOL_AGENT(context),
                                                 macro_context, macros);
     g_signal_emit(context, signals[DEFINE_MACRO], 0, macro_context, macros);
@@ -4317,7 +4334,7 @@ cb_decoder_abort (MilterDecoder *decoder, gpointer user_data)
     milter_client_context_set_state(
         context, MILTER_CLIENT_CONTEXT_STATE_ABORT);
 
-    disable_timeout(context);
+    start_timeout(context);
 
     g_signal_emit(context, signals[ABORT], 0, state, &status);
     milter_client_context_reset_message_related_data(context);
diff --git a/milter/client/milter-client-private.h b/milter/client/milter-client-private.h
index ae36405..deebcc6 100644
--- a/milter/client/milter-client-private.h
+++ b/milter/client/milter-client-private.h
@@ -32,6 +32,8 @@ void                 milter_client_set_n_processed_sessions
                                                       guint n_processed_sessions);
 gboolean             milter_client_need_maintain     (MilterClient  *client,
                                                       guint          n_finished_sessions);
+void                 milter_client_context_start_timeout
+                                                     (MilterClientContext *context);
 
 G_END_DECLS
 
diff --git a/milter/client/milter-client.c b/milter/client/milter-client.c
index 98c543f..8d915e4 100644
--- a/milter/client/milter-client.c
+++ b/milter/client/milter-client.c
@@ -1253,7 +1253,12 @@ milter_client_start_context (MilterClient *client,
 
     milter_client_context_set_socket_address(context, address);
 
-    return milter_agent_start(agent, error);
+    if (!milter_agent_start(agent, error))
+        return FALSE;
+
+    milter_client_context_start_timeout(context);
+
+    return TRUE;
 }
 
 
-- 
2.43.0


From c8fe811fb0cf6e0323eae1b33ae24635d1d7ae8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:15 +0000
Subject: [PATCH 20/66] fix: a peer that doesn't read stalled all sessions when
 its connection was closed

---
 milter/client/milter-client.c              |  4 ++++
 milter/core/milter-writer.c                | 14 +++++++++++++-
 milter/manager/milter-manager-controller.c |  4 ++++
 milter/server/milter-server-context.c      |  5 +++++
 4 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/milter/client/milter-client.c b/milter/client/milter-client.c
index 8d915e4..6933cf7 100644
--- a/milter/client/milter-client.c
+++ b/milter/client/milter-client.c
@@ -1422,6 +1422,10 @@ setup_client_channel(gint client_fd)
 {
     GIOChannel *client_channel = g_io_channel_unix_new(client_fd);
     g_io_channel_set_encoding(client_channel, NULL, NULL);
+    /* milter_writer_shutdown() writes what it can. Rest data in
+     * the channel would be written in blocking mode on close and
+     * a peer that doesn't read would stall all sessions. */
+    g_io_channel_set_buffered(client_channel, FALSE);
     g_io_channel_set_flags(client_channel, G_IO_FLAG_NONBLOCK, NULL);
     g_io_channel_set_close_on_unref(client_channel, TRUE);
     return client_channel;
diff --git a/milter/core/milter-writer.c b/milter/core/milter-writer.c
index 66a293e..b3ae2dd 100644
--- a/milter/core/milter-writer.c
+++ b/milter/core/milter-writer.c
@@ -340,6 +340,7 @@ write_watch_func (GIOChannel *channel, GIOCondition condition, gpointer data)
     MilterWriter *writer = data;
     MilterWriterPrivate *priv;
     gboolean keep_callback = TRUE;
+    gboolean flushed = FALSE;
 
     priv = MILTER_WRITER_GET_PRIVATE(writer);
 
@@ -391,7 +392,11 @@ write_watch_func (GIOChannel *channel, GIOCondition condition, gpointer data)
                          priv->buffer->len,
                          need_flush ? "true" : "false");
             if (need_flush && priv->loop) {
-                request_flush(writer);
+                if (g_io_channel_get_buffered(priv->io_channel)) {
+                    request_flush(writer);
+                } else {
+                    flushed = TRUE;
+                }
             }
         }
 
@@ -420,6 +425,13 @@ write_watch_func (GIOChannel *channel, GIOCondition condition, gpointer data)
         priv->write_watch_id = 0;
     }
 
+    if (flushed) {
+        g_object_ref(writer);
+        g_signal_emit(writer, signals[FLUSHED], 0);
+        keep_callback = (priv->write_watch_id > 0);
+        g_object_unref(writer);
+    }
+
     return keep_callback;
 }
 
diff --git a/milter/manager/milter-manager-controller.c b/milter/manager/milter-manager-controller.c
index 3d44761..9bb742c 100644
--- a/milter/manager/milter-manager-controller.c
+++ b/milter/manager/milter-manager-controller.c
@@ -317,6 +317,10 @@ accept_connection (gint controller_fd, MilterManagerController *controller)
 
     agent_channel = g_io_channel_unix_new(agent_fd);
     g_io_channel_set_encoding(agent_channel, NULL, NULL);
+    /* milter_writer_shutdown() writes what it can. Rest data in
+     * the channel would be written in blocking mode on close and
+     * a peer that doesn't read would stall all sessions. */
+    g_io_channel_set_buffered(agent_channel, FALSE);
     g_io_channel_set_flags(agent_channel, G_IO_FLAG_NONBLOCK, NULL);
     g_io_channel_set_close_on_unref(agent_channel, TRUE);
     process_connection(controller, agent_channel);
diff --git a/milter/server/milter-server-context.c b/milter/server/milter-server-context.c
index 08c8297..6b7bd59 100644
--- a/milter/server/milter-server-context.c
+++ b/milter/server/milter-server-context.c
@@ -3548,6 +3548,11 @@ milter_server_context_establish_connection (MilterServerContext *context,
         return FALSE;
     }
 
+    /* milter_writer_shutdown() writes what it can. Rest data in
+     * the channel would be written in blocking mode on close and
+     * a peer that doesn't read would stall all sessions. */
+    g_io_channel_set_buffered(priv->client_channel, FALSE);
+
     g_io_channel_set_flags(priv->client_channel,
                            G_IO_FLAG_NONBLOCK |
                            G_IO_FLAG_IS_READABLE |
-- 
2.43.0


From 4014a106f5ec95f67edf231444f2c67ced60b245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:49 +0000
Subject: [PATCH 21/66] fix: a session finished while many were pending kept
 its resources until the next session finished

---
 milter/client/milter-client.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/milter/client/milter-client.c b/milter/client/milter-client.c
index 6933cf7..01c7759 100644
--- a/milter/client/milter-client.c
+++ b/milter/client/milter-client.c
@@ -1182,23 +1182,30 @@ single_thread_cb_finished (MilterClientContext *context, gpointer _data)
 
     dispose_process_data_finished_handler(data);
     priv = data->priv;
-    if (!priv->finished_data) {
-        priv->finished_data = g_ptr_array_new();
-    }
-    g_ptr_array_add(priv->finished_data, data);
 
     max_pending_finished_sessions =
         milter_client_get_max_pending_finished_sessions(data->client);
     if (0 < max_pending_finished_sessions &&
-        max_pending_finished_sessions < priv->finished_data->len) {
+        priv->finished_data &&
+        max_pending_finished_sessions < priv->finished_data->len + 1) {
+        /* The current session is still emitting "finished". It
+         * must be disposed after all its handlers are called. */
         milter_debug("[client][finisher][immediate][run] %u > %u",
-                     priv->finished_data->len, max_pending_finished_sessions);
+                     priv->finished_data->len + 1,
+                     max_pending_finished_sessions);
         if (priv->finisher_id != 0) {
             milter_event_loop_remove(priv->event_loop, priv->finisher_id);
             priv->finisher_id = 0;
         }
         dispose_finished_data(data->client);
-    } else if (priv->finisher_id == 0) {
+    }
+
+    if (!priv->finished_data) {
+        priv->finished_data = g_ptr_array_new();
+    }
+    g_ptr_array_add(priv->finished_data, data);
+
+    if (priv->finisher_id == 0) {
         priv->finisher_id =
             milter_event_loop_add_idle_full(priv->event_loop,
                                             G_PRIORITY_DEFAULT,
-- 
2.43.0


From a026bd6865784657b12b37c7b3381c112e0736de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:07 +0000
Subject: [PATCH 22/66] fix: a milter stopped at DATA or as the only one at
 MAIL decided the step for all the others

---
 milter/manager/milter-manager-children.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index 3d7b6ec..ed7f11e 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -2400,13 +2400,17 @@ cb_stopped (MilterServerContext *context, gpointer user_data)
         break;
     case MILTER_SERVER_CONTEXT_STATE_ENVELOPE_FROM:
         compile_reply_status(children, state, MILTER_STATUS_ACCEPT);
-        cb_continue(context, user_data);
+        remove_child_from_queue(children, context);
         break;
     case MILTER_SERVER_CONTEXT_STATE_ENVELOPE_RECIPIENT:
         milter_server_context_set_status(context, MILTER_STATUS_NOT_CHANGE);
         cb_continue(context, user_data);
         break;
     case MILTER_SERVER_CONTEXT_STATE_DATA:
+        compile_reply_status(children, state, MILTER_STATUS_ACCEPT);
+        milter_server_context_abort(context);
+        remove_child_from_queue(children, context);
+        break;
     case MILTER_SERVER_CONTEXT_STATE_HEADER:
     case MILTER_SERVER_CONTEXT_STATE_END_OF_HEADER:
     case MILTER_SERVER_CONTEXT_STATE_BODY:
-- 
2.43.0


From f102e57aba0d832fa885f2bf6aa7b9471217a7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:07 +0000
Subject: [PATCH 23/66] fix: the replayed body was cut when a milter was
 stopped at it

---
 milter/manager/milter-manager-children.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index ed7f11e..cece8c1 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -4279,6 +4279,7 @@ send_body_to_child_string (MilterManagerChildren *children,
 {
     MilterStatus status = MILTER_STATUS_PROGRESS;
     MilterManagerChildrenPrivate *priv;
+    const gchar *chunk;
     gsize chunk_size, write_size;
 
     priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
@@ -4288,10 +4289,11 @@ send_body_to_child_string (MilterManagerChildren *children,
     chunk_size =
         milter_manager_configuration_get_chunk_size(priv->configuration);
     write_size = MIN(priv->body->len - priv->sent_body_offset, chunk_size);
-    if (milter_server_context_body(context,
-                                   priv->body->str + priv->sent_body_offset,
-                                   write_size)) {
-        priv->sent_body_offset += write_size;
+    /* The next child may be started while the chunk is being sent: the offset
+     * must not be changed after that. */
+    chunk = priv->body->str + priv->sent_body_offset;
+    priv->sent_body_offset += write_size;
+    if (milter_server_context_body(context, chunk, write_size)) {
         init_command_waiting_child_queue(children, MILTER_COMMAND_BODY);
     } else {
         MilterManagerChild *child;
-- 
2.43.0


From ce5a0c4c12aa38b1de561a3ac18431c247e5a120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:09 +0000
Subject: [PATCH 24/66] fix: connections were never checked again after the
 last checked session was disconnected

---
 milter/manager/milter-manager.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/milter/manager/milter-manager.c b/milter/manager/milter-manager.c
index 8dfc04f..494193a 100644
--- a/milter/manager/milter-manager.c
+++ b/milter/manager/milter-manager.c
@@ -390,7 +390,12 @@ connection_check (gpointer data)
 
     priv->connection_checking = FALSE;
 
-    return priv->leaders != NULL;
+    if (!priv->leaders) {
+        priv->periodical_connection_checker_id = 0;
+        return FALSE;
+    }
+
+    return TRUE;
 }
 
 static void
-- 
2.43.0


From f4ea1ccad667edcc4ec91193cf628c3c8883d787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:22 +0000
Subject: [PATCH 25/66] fix: the list node of a refused recipient was leaked

---
 milter/core/milter-message-result.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/milter/core/milter-message-result.c b/milter/core/milter-message-result.c
index 76620af..66158a5 100644
--- a/milter/core/milter-message-result.c
+++ b/milter/core/milter-message-result.c
@@ -496,7 +496,8 @@ milter_message_result_remove_recipient (MilterMessageResult *result,
 
         if (strcmp(_recipient, recipient) == 0) {
             g_free(_recipient);
-            priv->recipients = g_list_remove_link(priv->recipients, node);
+            priv->recipients = g_list_delete_link(priv->recipients, node);
+            break;
         }
     }
 }
-- 
2.43.0


From b9b7905f423fcd0a5d93a285cf72dbbfba7041a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:57 +0000
Subject: [PATCH 26/66] fix: a session that ended before its negotiation was
 never released

---
 milter/manager/milter-manager-leader.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/milter/manager/milter-manager-leader.c b/milter/manager/milter-manager-leader.c
index ccdf85d..651c2e9 100644
--- a/milter/manager/milter-manager-leader.c
+++ b/milter/manager/milter-manager-leader.c
@@ -1297,8 +1297,10 @@ milter_manager_leader_quit (MilterManagerLeader *leader)
 
     fallback_status =
         milter_manager_configuration_get_fallback_status(priv->configuration);
-    if (!priv->children)
+    if (!priv->children) {
+        milter_finished_emittable_emit(MILTER_FINISHED_EMITTABLE(leader));
         return fallback_status;
+    }
 
     milter_manager_children_quit(priv->children);
     return MILTER_STATUS_DEFAULT;
-- 
2.43.0


From 67f94ddba6b1c92db6bc3db1da8af3b6c3211e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:36 +0000
Subject: [PATCH 27/66] fix: all sessions were stalled while too many
 connections or files were open

---
 milter/client/milter-client.c | 111 +++++++++++++++++++++++++++-------
 1 file changed, 88 insertions(+), 23 deletions(-)

diff --git a/milter/client/milter-client.c b/milter/client/milter-client.c
index 01c7759..c269094 100644
--- a/milter/client/milter-client.c
+++ b/milter/client/milter-client.c
@@ -82,6 +82,9 @@ struct _MilterClientPrivate
     MilterEventLoop *event_loop;
     guint accept_watch_id;
     guint accept_error_watch_id;
+    guint accept_resume_id;
+    gint accept_priority;
+    GIOFunc accept_func;
     gchar *connection_spec;
     GList *processing_data;
     guint n_processing_sessions;
@@ -491,6 +494,9 @@ _milter_client_init (MilterClient *client)
 
     priv->accept_watch_id = 0;
     priv->accept_error_watch_id = 0;
+    priv->accept_resume_id = 0;
+    priv->accept_priority = G_PRIORITY_DEFAULT;
+    priv->accept_func = NULL;
     priv->connection_spec = NULL;
     priv->processing_data = NULL;
     priv->n_processing_sessions = 0;
@@ -724,6 +730,11 @@ dispose_accept_watchers (MilterClientPrivate *priv)
         }
         priv->accept_error_watch_id = 0;
     }
+
+    if (priv->accept_resume_id > 0) {
+        milter_event_loop_remove(priv->event_loop, priv->accept_resume_id);
+        priv->accept_resume_id = 0;
+    }
 }
 
 static void
@@ -1354,6 +1365,69 @@ single_thread_process_client_channel (MilterClient *client, GIOChannel *channel,
                                     NULL);
 }
 
+static void
+watch_accept (MilterClient *client, MilterEventLoop *loop, gint priority,
+              GIOFunc accept_func)
+{
+    MilterClientPrivate *priv;
+
+    priv = MILTER_CLIENT_GET_PRIVATE(client);
+
+    priv->accept_priority = priority;
+    priv->accept_func = accept_func;
+    priv->accept_watch_id =
+        milter_event_loop_watch_io_full(loop,
+                                        priority,
+                                        priv->listening_channel,
+                                        G_IO_IN | G_IO_PRI,
+                                        accept_func,
+                                        client,
+                                        NULL);
+}
+
+static gboolean
+cb_timeout_resume_accept (gpointer user_data)
+{
+    MilterClient *client = user_data;
+    MilterClientPrivate *priv;
+
+    priv = MILTER_CLIENT_GET_PRIVATE(client);
+
+    milter_warning("[client][accept][resume] resume accepting connection");
+    priv->accept_resume_id = 0;
+    watch_accept(client, priv->event_loop,
+                 priv->accept_priority, priv->accept_func);
+
+    return FALSE;
+}
+
+static void
+suspend_accept (MilterClient *client, guint suspend_time)
+{
+    MilterClientPrivate *priv;
+
+    priv = MILTER_CLIENT_GET_PRIVATE(client);
+
+    if (priv->accept_loop) {
+        /* Sessions are processed by another thread. */
+        g_usleep(suspend_time * G_USEC_PER_SEC);
+        milter_warning("[client][accept][resume] resume accepting connection");
+        return;
+    }
+
+    /* Sessions are processed by this event loop: they must not be
+     * suspended because they need to be finished to resume. */
+    if (priv->accept_watch_id > 0) {
+        milter_event_loop_remove(priv->event_loop, priv->accept_watch_id);
+        priv->accept_watch_id = 0;
+    }
+    if (priv->accept_resume_id == 0 && priv->listening_channel) {
+        priv->accept_resume_id =
+            milter_event_loop_add_timeout(priv->event_loop, suspend_time,
+                                          cb_timeout_resume_accept, client);
+    }
+}
+
 static gint
 accept_connection_fd (MilterClient *client, gint server_fd,
                       MilterGenericSocketAddress *address,
@@ -1377,39 +1451,41 @@ accept_connection_fd (MilterClient *client, gint server_fd,
                        max_connections,
                        suspend_time,
                        n_suspend);
-        g_usleep(suspend_time * G_USEC_PER_SEC);
-        milter_warning("[client][accept][resume] "
-                       "resume accepting connection: #%u", n_suspend);
+        suspend_accept(client, suspend_time);
+        if (!priv->accept_loop) {
+            errno = EAGAIN;
+            return -1;
+        }
     }
 
     *address_size = sizeof(*address);
     memset(address, '\0', *address_size);
     client_fd = accept(server_fd, (struct sockaddr *)(address), address_size);
     if (client_fd == -1) {
+        gint accept_errno = errno;
         GError *error = NULL;
 
-        if (errno == EAGAIN)
+        if (accept_errno == EAGAIN)
             return client_fd;
 
         g_set_error(&error,
                     MILTER_CONNECTION_ERROR,
                     MILTER_CONNECTION_ERROR_ACCEPT_FAILURE,
-                    "failed to accept(): %s", g_strerror(errno));
-        milter_error("[client][error][accept] %s", g_strerror(errno));
+                    "failed to accept(): %s", g_strerror(accept_errno));
+        milter_error("[client][error][accept] %s", g_strerror(accept_errno));
         milter_error_emittable_emit(MILTER_ERROR_EMITTABLE(client),
                                     error);
         g_error_free(error);
 
-        if (errno == EMFILE) {
+        if (accept_errno == EMFILE) {
             milter_warning("[client][accept][suspend] "
                            "too many file is opened. "
                            "suspend accepting connection in %d seconds",
                            suspend_time);
-            g_usleep(suspend_time * G_USEC_PER_SEC);
-            milter_warning("[client][accept][resume] "
-                           "resume accepting connection.");
+            suspend_accept(client, suspend_time);
         }
 
+        errno = accept_errno;
         return client_fd;
     }
 
@@ -2053,11 +2129,7 @@ milter_client_prepare (MilterClient *client, MilterEventLoop *loop,
         return FALSE;
     }
 
-    priv->accept_watch_id =
-        milter_event_loop_watch_io(loop,
-                                   priv->listening_channel,
-                                   G_IO_IN | G_IO_PRI,
-                                   accept_func, client);
+    watch_accept(client, loop, G_PRIORITY_DEFAULT, accept_func);
     priv->accept_error_watch_id =
         milter_event_loop_watch_io(loop,
                                    priv->listening_channel,
@@ -2510,14 +2582,7 @@ run_worker (MilterClient *client, GError **error)
 
     priv->quitting = FALSE;
     loop = milter_client_get_event_loop(client);
-    priv->accept_watch_id =
-        milter_event_loop_watch_io_full(loop,
-                                        G_PRIORITY_HIGH,
-                                        priv->listening_channel,
-                                        G_IO_IN | G_IO_PRI,
-                                        worker_accept_watch_func,
-                                        client,
-                                        NULL);
+    watch_accept(client, loop, G_PRIORITY_HIGH, worker_accept_watch_func);
     priv->accept_error_watch_id =
         milter_event_loop_watch_io_full(loop,
                                         G_PRIORITY_HIGH,
-- 
2.43.0


From 8828ecce7f221b50c97546148320c135b172846e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:36 +0000
Subject: [PATCH 28/66] fix: a worker stopped accepting connections for ever
 after an error of accept()

---
 milter/client/milter-client.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/milter/client/milter-client.c b/milter/client/milter-client.c
index c269094..9526be3 100644
--- a/milter/client/milter-client.c
+++ b/milter/client/milter-client.c
@@ -2528,20 +2528,17 @@ worker_accept_watch_func (GIOChannel *channel, GIOCondition condition,
     gint server_fd, client_fd;
     MilterGenericSocketAddress address;
     socklen_t address_size;
-    gboolean keep_callback = TRUE;
 
     server_fd = g_io_channel_unix_get_fd(channel);
     client_fd = accept_connection_fd(client, server_fd, &address, &address_size);
-    if (client_fd == -1) {
-        keep_callback = errno == EAGAIN;
-    } else {
+    if (client_fd != -1) {
         GIOChannel *client_channel;
         client_channel = setup_client_channel(client_fd);
         single_thread_process_client_channel(client, client_channel,
                                              &address, (socklen_t)address_size);
         g_io_channel_unref(client_channel);
     }
-    return keep_callback;
+    return TRUE;
 }
 
 static gboolean
-- 
2.43.0


From a8b57ff824faed3dd83f76fd640a00d536b09aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:00 +0000
Subject: [PATCH 29/66] simulation hook: size of bodies kept in memory

---
 milter/manager/milter-manager-children.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index cece8c1..0a23eec 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -28,7 +28,13 @@
 #include "milter/core.h"
 #include "milter-manager-launch-command-encoder.h"
 
-#define MAX_ON_MEMORY_BODY_SIZE 5242880 /* 5Mbyte */
+#ifdef MILTER_MANAGER_SIMULATION
+extern gsize milter_manager_simulation_max_on_memory_body_size;
+#  define MAX_ON_MEMORY_BODY_SIZE \
+    milter_manager_simulation_max_on_memory_body_size
+#else
+#  define MAX_ON_MEMORY_BODY_SIZE 5242880 /* 5Mbyte */
+#endif
 
 #define MAX_SUPPORTED_MILTER_PROTOCOL_VERSION 6
 
-- 
2.43.0


From 33b7371d8f52432976448ca689ee4ff080dbf611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:20 +0000
Subject: [PATCH 30/66] fix: a milter or the MTA got a broken body when the
 temporary file of a large body failed

An error while the body was kept was ignored or decided by the fallback
status of a milter that went on: a truncated replaced body was accepted,
the next milter got only a part of the body. The message is answered with
the fallback status of the configuration (documented for this case) or,
when a part of the new body was already sent, temporarily failed.
---
 milter/manager/milter-manager-children.c | 55 ++++++++++++++++++++----
 milter/manager/milter-manager-children.h |  3 +-
 2 files changed, 48 insertions(+), 10 deletions(-)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index 0a23eec..7f7ef7c 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -97,6 +97,7 @@ struct _MilterManagerChildrenPrivate
     GString *body;
     GIOChannel *body_file;
     gchar *body_file_name;
+    gboolean body_broken;
     gchar *end_of_message_chunk;
     gsize end_of_message_size;
     guint sending_body;
@@ -296,6 +297,7 @@ milter_manager_children_init (MilterManagerChildren *milter)
     priv->body = NULL;
     priv->body_file = NULL;
     priv->body_file_name = NULL;
+    priv->body_broken = FALSE;
     priv->end_of_message_chunk = NULL;
     priv->end_of_message_size = 0;
     priv->sending_body = FALSE;
@@ -512,6 +514,7 @@ dispose_message_related_data (MilterManagerChildrenPrivate *priv)
     priv->end_of_message_size = 0;
     priv->processing_header_index = 0;
     priv->sent_body_offset = 0;
+    priv->body_broken = FALSE;
     priv->sending_body = FALSE;
     priv->replaced_body = FALSE;
     priv->replaced_body_for_each_child = FALSE;
@@ -1133,6 +1136,28 @@ remove_child_from_queue (MilterManagerChildren *children,
     return status;
 }
 
+/* The body of the message has been lost: no milter can process the message
+ * any more. It is replied with the fallback status of the configuration. */
+static void
+fail_message_by_broken_body (MilterManagerChildren *children)
+{
+    MilterManagerChildrenPrivate *priv;
+    GError *error;
+
+    priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
+    priv->sending_body = FALSE;
+
+    error = g_error_new(MILTER_MANAGER_CHILDREN_ERROR,
+                        MILTER_MANAGER_CHILDREN_ERROR_BROKEN_BODY,
+                        "failed to keep the message body");
+    milter_error("[%u] [children][error][body][broken] %s",
+                 priv->tag, error->message);
+    milter_error_emittable_emit(MILTER_ERROR_EMITTABLE(children), error);
+    g_error_free(error);
+
+    abort_all_children(children);
+}
+
 static gboolean
 emit_replace_body_signal_file (MilterManagerChildren *children)
 {
@@ -1459,8 +1484,14 @@ emit_signals_on_end_of_message (MilterManagerChildren *children)
     MilterManagerChildrenPrivate *priv;
 
     priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
-    if (priv->replaced_body)
-        emit_replace_body_signal(children);
+    if (priv->replaced_body && !priv->body_broken &&
+        !emit_replace_body_signal(children)) {
+        /* A part of the body may have been emitted. */
+        compile_reply_status(children,
+                             MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE,
+                             MILTER_STATUS_TEMPORARY_FAILURE);
+        return;
+    }
 
     if (priv->original_headers)
         emit_header_signals(children);
@@ -1551,6 +1582,11 @@ send_first_command_to_next_child (MilterManagerChildren *children,
     priv->command_waiting_child_queue =
         g_list_remove(priv->command_waiting_child_queue, context);
 
+    if (priv->body_broken) {
+        fail_message_by_broken_body(children);
+        return MILTER_STATUS_PROGRESS;
+    }
+
     next_child = get_first_child_in_command_waiting_child_queue(children);
     if (!next_child) {
         emit_reply_for_message_oriented_command(children, priv->state);
@@ -2321,7 +2357,7 @@ cb_replace_body (MilterServerContext *context,
     }
 
     if (!write_body(children, chunk, chunk_size))
-        return;
+        priv->body_broken = TRUE;
 
     priv->replaced_body_for_each_child = TRUE;
     priv->replaced_body = TRUE;
@@ -4122,8 +4158,10 @@ milter_manager_children_body (MilterManagerChildren *children,
     if (!first_child)
         return FALSE;
 
-    if (!write_body(children, chunk, size))
+    if (!write_body(children, chunk, size)) {
+        fail_message_by_broken_body(children);
         return FALSE;
+    }
 
     priv->state = state;
     priv->processing_state = state;
@@ -4179,8 +4217,6 @@ init_child_for_body_file (MilterManagerChildren *children,
 
     g_io_channel_seek_position(priv->body_file, 0, G_SEEK_SET, &error);
     if (error) {
-        MilterManagerChild *child;
-
         milter_error("[%u] [children][error][body][send][seek] [%u] %s: %s",
                      priv->tag,
                      milter_agent_get_tag(MILTER_AGENT(context)),
@@ -4189,8 +4225,8 @@ init_child_for_body_file (MilterManagerChildren *children,
         milter_error_emittable_emit(MILTER_ERROR_EMITTABLE(children), error);
         g_error_free(error);
 
-        child = MILTER_MANAGER_CHILD(context);
-        return milter_manager_child_get_fallback_status(child);
+        fail_message_by_broken_body(children);
+        return MILTER_STATUS_PROGRESS;
     }
 
     return MILTER_STATUS_NOT_CHANGE;
@@ -4273,7 +4309,8 @@ send_body_to_child_file (MilterManagerChildren *children,
         milter_error_emittable_emit(MILTER_ERROR_EMITTABLE(children), error);
         g_error_free(error);
 
-        status = milter_manager_child_get_fallback_status(child);
+        fail_message_by_broken_body(children);
+        status = MILTER_STATUS_PROGRESS;
     }
 
     return status;
diff --git a/milter/manager/milter-manager-children.h b/milter/manager/milter-manager-children.h
index fd3bd7b..955b8a9 100644
--- a/milter/manager/milter-manager-children.h
+++ b/milter/manager/milter-manager-children.h
@@ -43,7 +43,8 @@ typedef enum
     MILTER_MANAGER_CHILDREN_ERROR_NO_NEGOTIATION,
     MILTER_MANAGER_CHILDREN_ERROR_NO_DEMAND_COMMAND,
     MILTER_MANAGER_CHILDREN_ERROR_NO_ALIVE_MILTER,
-    MILTER_MANAGER_CHILDREN_ERROR_NO_MESSAGE_PROCESSING_MILTER
+    MILTER_MANAGER_CHILDREN_ERROR_NO_MESSAGE_PROCESSING_MILTER,
+    MILTER_MANAGER_CHILDREN_ERROR_BROKEN_BODY
 } MilterManagerChildrenError;
 
 typedef struct _MilterManagerChildrenClass    MilterManagerChildrenClass;
-- 
2.43.0


From 99521e57a664c9083c71b57d82c422faf55085ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:16 +0000
Subject: [PATCH 31/66] fix: a message accepted by all milters was decided by
 the fallback status of the configuration

---
 milter/manager/milter-manager-children.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index 7f7ef7c..19df569 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -113,6 +113,7 @@ struct _MilterManagerChildrenPrivate
     gboolean finished;
     gboolean emitted_reply_for_message_oriented_command;
     gboolean replied_message_oriented_command;
+    gboolean accepted_message;
 
     guint tag;
 
@@ -298,6 +299,7 @@ milter_manager_children_init (MilterManagerChildren *milter)
     priv->body_file = NULL;
     priv->body_file_name = NULL;
     priv->body_broken = FALSE;
+    priv->accepted_message = FALSE;
     priv->end_of_message_chunk = NULL;
     priv->end_of_message_size = 0;
     priv->sending_body = FALSE;
@@ -515,6 +517,7 @@ dispose_message_related_data (MilterManagerChildrenPrivate *priv)
     priv->processing_header_index = 0;
     priv->sent_body_offset = 0;
     priv->body_broken = FALSE;
+    priv->accepted_message = FALSE;
     priv->sending_body = FALSE;
     priv->replaced_body = FALSE;
     priv->replaced_body_for_each_child = FALSE;
@@ -1589,6 +1592,12 @@ send_first_command_to_next_child (MilterManagerChildren *children,
 
     next_child = get_first_child_in_command_waiting_child_queue(children);
     if (!next_child) {
+        if (priv->state != MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE) {
+            /* Replies to earlier commands of the state don't matter. */
+            milter_manager_children_set_status(children, priv->state,
+                                               MILTER_STATUS_ACCEPT);
+            priv->accepted_message = TRUE;
+        }
         emit_reply_for_message_oriented_command(children, priv->state);
         return MILTER_STATUS_PROGRESS;
     }
@@ -3615,6 +3624,11 @@ milter_manager_children_check_processing_message (MilterManagerChildren *childre
             return TRUE;
     }
 
+    if (priv->accepted_message) {
+        g_signal_emit_by_name(children, "accept");
+        return FALSE;
+    }
+
     g_set_error(&error,
                 MILTER_MANAGER_CHILDREN_ERROR,
                 MILTER_MANAGER_CHILDREN_ERROR_NO_MESSAGE_PROCESSING_MILTER,
-- 
2.43.0


From ff10e168983dc78be94fdda0b79bfa93aec566f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:46 +0000
Subject: [PATCH 32/66] fix: a milter stopped at a message got the rest of the
 message after its queue was flushed

---
 milter/server/milter-server-context.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/milter/server/milter-server-context.c b/milter/server/milter-server-context.c
index 6b7bd59..4612a33 100644
--- a/milter/server/milter-server-context.c
+++ b/milter/server/milter-server-context.c
@@ -1395,9 +1395,6 @@ process_next_state (MilterServerContext *context,
     case MILTER_SERVER_CONTEXT_STATE_ABORT:
         milter_server_context_set_state(context, next_state);
         break;
-    case MILTER_SERVER_CONTEXT_STATE_ENVELOPE_FROM:
-        priv->processing_message = TRUE;
-        /* FALLTHROUGH */
     default:
         milter_server_context_set_state(context, next_state);
         if (milter_server_context_need_reply(context, next_state)) {
-- 
2.43.0


From a50093dcd4805a2af0dd072d44200ebeaf45e8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:56 +0000
Subject: [PATCH 33/66] fix: a packet without a command was read out of bounds

---
 milter/core/milter-decoder.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/milter/core/milter-decoder.c b/milter/core/milter-decoder.c
index 88bdf03..5e6eca8 100644
--- a/milter/core/milter-decoder.c
+++ b/milter/core/milter-decoder.c
@@ -415,7 +415,15 @@ milter_decoder_decode (MilterDecoder *decoder, const gchar *chunk, gsize size,
                 milter_trace("[%u] [decoder][decode][content][fill] "
                              "<%d> (%" G_GSIZE_FORMAT ")",
                              priv->tag, priv->command_length, priv->buffer->len);
-                g_signal_emit(decoder, signals[DECODE], 0, error, &success);
+                if (priv->command_length == 0) {
+                    success = FALSE;
+                    g_set_error(error,
+                                MILTER_DECODER_ERROR,
+                                MILTER_DECODER_ERROR_SHORT_COMMAND_LENGTH,
+                                "packet doesn't have command");
+                } else {
+                    g_signal_emit(decoder, signals[DECODE], 0, error, &success);
+                }
                 if (success) {
                     priv->state = IN_START;
                     g_string_erase(priv->buffer, 0, priv->command_length);
-- 
2.43.0


From 6800454da6c6cb64494b882b2841801446c034c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:56 +0000
Subject: [PATCH 34/66] fix: the reply to a second negotiation contained the
 first one

---
 milter/core/milter-encoder.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/milter/core/milter-encoder.c b/milter/core/milter-encoder.c
index 0bea8bc..1677cdf 100644
--- a/milter/core/milter-encoder.c
+++ b/milter/core/milter-encoder.c
@@ -191,6 +191,7 @@ milter_encoder_encode_negotiate (MilterEncoder *encoder, MilterOption *option)
     MilterEncoderPrivate *priv;
 
     priv = MILTER_ENCODER_GET_PRIVATE(encoder);
+    milter_encoder_clear_buffer(encoder);
     g_string_append_c(priv->buffer, MILTER_COMMAND_NEGOTIATE);
     if (option) {
         guint32 version, action, step;
-- 
2.43.0


From 37f7595b5e48b16e68c69af3b245f35fe20703cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:56 +0000
Subject: [PATCH 35/66] fix: readers and writers were touched after they had
 been freed by their own callbacks

---
 milter/core/milter-reader.c |  8 ++++++++
 milter/core/milter-writer.c | 14 ++++++++++++--
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/milter/core/milter-reader.c b/milter/core/milter-reader.c
index 62d30a8..034dc7a 100644
--- a/milter/core/milter-reader.c
+++ b/milter/core/milter-reader.c
@@ -219,6 +219,8 @@ read_watch_func (GIOChannel *channel, GIOCondition condition, gpointer data)
     MilterReader *reader = data;
     gboolean keep_callback = TRUE;
 
+    g_object_ref(reader);
+
     priv = MILTER_READER_GET_PRIVATE(reader);
     priv->processing = TRUE;
     milter_trace("[%d] [reader][callback][read][process][start]", priv->tag);
@@ -251,6 +253,8 @@ read_watch_func (GIOChannel *channel, GIOCondition condition, gpointer data)
     milter_trace("[%d] [reader][callback][read][process][done]", priv->tag);
     priv->processing = FALSE;
 
+    g_object_unref(reader);
+
     return keep_callback;
 }
 
@@ -262,6 +266,8 @@ error_watch_func (GIOChannel *channel, GIOCondition condition, gpointer data)
     gboolean keep_callback = FALSE;
     gboolean error_occurred = FALSE;
 
+    g_object_ref(reader);
+
     priv = MILTER_READER_GET_PRIVATE(reader);
     milter_trace("[%d] [reader][callback][error][start]", priv->tag);
 
@@ -303,6 +309,8 @@ error_watch_func (GIOChannel *channel, GIOCondition condition, gpointer data)
     clear_watch_id(priv);
     finish(reader);
 
+    g_object_unref(reader);
+
     return keep_callback;
 }
 
diff --git a/milter/core/milter-writer.c b/milter/core/milter-writer.c
index b3ae2dd..9f0547c 100644
--- a/milter/core/milter-writer.c
+++ b/milter/core/milter-writer.c
@@ -275,6 +275,8 @@ flush_watch_func (GIOChannel *channel, GIOCondition condition, gpointer data)
     GIOStatus status;
     GError *channel_error = NULL;
 
+    g_object_ref(writer);
+
     priv = MILTER_WRITER_GET_PRIVATE(writer);
 
     milter_trace("[%u] [writer][flush-callback] [%u]",
@@ -311,6 +313,8 @@ flush_watch_func (GIOChannel *channel, GIOCondition condition, gpointer data)
         priv->flush_watch_id = 0;
     }
 
+    g_object_unref(writer);
+
     return keep_callback;
 }
 
@@ -342,6 +346,8 @@ write_watch_func (GIOChannel *channel, GIOCondition condition, gpointer data)
     gboolean keep_callback = TRUE;
     gboolean flushed = FALSE;
 
+    g_object_ref(writer);
+
     priv = MILTER_WRITER_GET_PRIVATE(writer);
 
     milter_trace("[%u] [writer][write-callback] [%u] "
@@ -426,12 +432,12 @@ write_watch_func (GIOChannel *channel, GIOCondition condition, gpointer data)
     }
 
     if (flushed) {
-        g_object_ref(writer);
         g_signal_emit(writer, signals[FLUSHED], 0);
         keep_callback = (priv->write_watch_id > 0);
-        g_object_unref(writer);
     }
 
+    g_object_unref(writer);
+
     return keep_callback;
 }
 
@@ -537,6 +543,8 @@ error_watch_func (GIOChannel *channel, GIOCondition condition, gpointer data)
     gchar *message;
     GError *error = NULL;
 
+    g_object_ref(writer);
+
     priv = MILTER_WRITER_GET_PRIVATE(writer);
 
     message = milter_utils_inspect_io_condition_error(condition);
@@ -558,6 +566,8 @@ error_watch_func (GIOChannel *channel, GIOCondition condition, gpointer data)
         milter_finished_emittable_emit(MILTER_FINISHED_EMITTABLE(writer));
     }
 
+    g_object_unref(writer);
+
     return keep_callback;
 }
 
-- 
2.43.0


From 31c7d328b006213565eb41f58b143db663a5e81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:56 +0000
Subject: [PATCH 36/66] fix: the milters of a replaced negotiation still
 answered the MTA

---
 milter/manager/milter-manager-leader.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/milter/manager/milter-manager-leader.c b/milter/manager/milter-manager-leader.c
index 651c2e9..14a253c 100644
--- a/milter/manager/milter-manager-leader.c
+++ b/milter/manager/milter-manager-leader.c
@@ -1017,6 +1017,7 @@ teardown_children_signals (MilterManagerLeader *leader,
     DISCONNECT(connection_failure);
     DISCONNECT(shutdown);
     DISCONNECT(skip);
+    DISCONNECT(abort);
 
     DISCONNECT(error);
     DISCONNECT(finished);
@@ -1035,6 +1036,13 @@ milter_manager_leader_negotiate (MilterManagerLeader *leader,
     priv = MILTER_MANAGER_LEADER_GET_PRIVATE(leader);
     priv->state = MILTER_MANAGER_LEADER_STATE_NEGOTIATE;
 
+    if (priv->children) {
+        teardown_children_signals(leader, priv->children);
+        milter_manager_children_quit(priv->children);
+        g_object_unref(priv->children);
+        priv->children = NULL;
+    }
+
     event_loop = milter_agent_get_event_loop(MILTER_AGENT(priv->client_context));
     priv->children = milter_manager_children_new(priv->configuration,
                                                  event_loop);
-- 
2.43.0


From bf8ffc5c1e36257d5f523f352bb06ef5e8c4ed73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:56 +0000
Subject: [PATCH 37/66] fix: emulated DATA was skipped, answered twice or freed
 while it was in use

---
 milter/manager/milter-manager-children.c | 104 ++++++++++++-----------
 1 file changed, 54 insertions(+), 50 deletions(-)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index 19df569..3bfd87b 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -71,6 +71,7 @@ struct _MilterManagerChildrenPrivate
     GList *command_waiting_child_queue; /* storing child milters which is waiting for commands after DATA command */
     GList *command_queue; /* storing commands after DATA command */
     PendingMessageRequest *pending_message_request;
+    gboolean waiting_data; /* whether DATA is not sent after recipients yet */
     GHashTable *try_negotiate_ids;
     MilterManagerConfiguration *configuration;
     MilterMacrosRequests *macros_requests;
@@ -276,6 +277,7 @@ milter_manager_children_init (MilterManagerChildren *milter)
     priv->command_waiting_child_queue = NULL;
     priv->command_queue = NULL;
     priv->pending_message_request = NULL;
+    priv->waiting_data = FALSE;
     priv->try_negotiate_ids =
         g_hash_table_new_full(g_direct_hash, g_direct_equal,
                               negotiate_data_hash_key_free,
@@ -1035,15 +1037,14 @@ milter_manager_children_is_waiting_reply (MilterManagerChildren *children)
 }
 
 static gboolean
-process_pending_message_request (MilterManagerChildren *children)
+process_pending_message_request (MilterManagerChildren *children,
+                                 PendingMessageRequest *request)
 {
     gboolean processed = FALSE;
     MilterManagerChildrenPrivate *priv;
-    PendingMessageRequest *request;
     gchar *command_name = NULL;
 
     priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
-    request = priv->pending_message_request;
 
     if (milter_need_debug_log()) {
         command_name = milter_utils_get_enum_nick_name(
@@ -1110,11 +1111,15 @@ remove_child_from_queue (MilterManagerChildren *children,
 
     status = get_reply_status_for_state(children, priv->processing_state);
     if (priv->pending_message_request) {
+        PendingMessageRequest *request;
+
+        request = priv->pending_message_request;
+        priv->pending_message_request = NULL;
         if (status == MILTER_STATUS_CONTINUE &&
-            process_pending_message_request(children)) {
+            process_pending_message_request(children, request)) {
             status = MILTER_STATUS_PROGRESS;
         }
-        dispose_pending_message_request(priv);
+        pending_message_request_free(request);
         if (status == MILTER_STATUS_PROGRESS)
             return status;
     }
@@ -3744,6 +3749,7 @@ milter_manager_children_envelope_from (MilterManagerChildren *children,
     priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
 
     reset_message_related_data(children);
+    priv->waiting_data = FALSE;
     init_reply_queue(children, state);
     for (child = priv->milters; child; child = g_list_next(child)) {
         MilterServerContext *context = MILTER_SERVER_CONTEXT(child->data);
@@ -3783,6 +3789,7 @@ milter_manager_children_envelope_recipient (MilterManagerChildren *children,
 
     priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
 
+    priv->waiting_data = TRUE;
     init_reply_queue(children, state);
     for (child = priv->milters; child; child = g_list_next(child)) {
         MilterServerContext *context = MILTER_SERVER_CONTEXT(child->data);
@@ -3820,6 +3827,7 @@ milter_manager_children_data (MilterManagerChildren *children)
 
     priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
 
+    priv->waiting_data = FALSE;
     init_reply_queue(children, state);
     for (child = priv->milters; child; child = g_list_next(child)) {
         MilterServerContext *context = MILTER_SERVER_CONTEXT(child->data);
@@ -3943,10 +3951,29 @@ send_next_header_to_child (MilterManagerChildren *children, MilterServerContext
 static gboolean
 need_data_commmand_emulation (MilterManagerChildrenPrivate *priv)
 {
-    return (priv->state == MILTER_SERVER_CONTEXT_STATE_ENVELOPE_RECIPIENT &&
+    return (priv->waiting_data &&
             milter_option_get_version(priv->option) >= 4);
 }
 
+/* The request must be kept before DATA is sent: children that don't reply to
+ * DATA finish it at once. */
+static gboolean
+emulate_data_command (MilterManagerChildren *children,
+                      PendingMessageRequest *request)
+{
+    MilterManagerChildrenPrivate *priv;
+
+    priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
+
+    dispose_pending_message_request(priv);
+    priv->pending_message_request = request;
+    if (milter_manager_children_data(children))
+        return TRUE;
+
+    dispose_pending_message_request(priv);
+    return FALSE;
+}
+
 gboolean
 milter_manager_children_header (MilterManagerChildren *children,
                                 const gchar           *name,
@@ -3960,19 +3987,13 @@ milter_manager_children_header (MilterManagerChildren *children,
     priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
 
     if (need_data_commmand_emulation(priv)) {
-        gboolean success;
         milter_debug("[%u] [children][data-command-emulation][header] "
                      "<%s>=<%s>", priv->tag, name, value);
-        success = milter_manager_children_data(children);
-        if (success) {
-            milter_debug("[%u] [children][pending-message-request][header]"
-                         "[keep] <%s>=<%s>",
-                         priv->tag, name, value);
-            dispose_pending_message_request(priv);
-            priv->pending_message_request =
-                pending_header_request_new(name, value);
-        }
-        return success;
+        milter_debug("[%u] [children][pending-message-request][header]"
+                     "[keep] <%s>=<%s>",
+                     priv->tag, name, value);
+        return emulate_data_command(children,
+                                    pending_header_request_new(name, value));
     }
 
     priv->state = MILTER_SERVER_CONTEXT_STATE_HEADER;
@@ -3998,19 +4019,13 @@ milter_manager_children_end_of_header (MilterManagerChildren *children)
     priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
 
     if (need_data_commmand_emulation(priv)) {
-        gboolean success;
         milter_debug("[%u] [children][data-command-emulation][end-of-header]",
                      priv->tag);
-        success = milter_manager_children_data(children);
-        if (success) {
-            milter_debug("[%u] [children][pending-message-request]"
-                         "[end-of-header][keep]",
-                         priv->tag);
-            dispose_pending_message_request(priv);
-            priv->pending_message_request =
-                pending_end_of_header_request_new();
-        }
-        return success;
+        milter_debug("[%u] [children][pending-message-request]"
+                     "[end-of-header][keep]",
+                     priv->tag);
+        return emulate_data_command(children,
+                                    pending_end_of_header_request_new());
     }
 
     priv->state = MILTER_SERVER_CONTEXT_STATE_END_OF_HEADER;
@@ -4147,20 +4162,14 @@ milter_manager_children_body (MilterManagerChildren *children,
     priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
 
     if (need_data_commmand_emulation(priv)) {
-        gboolean success;
         milter_debug("[%u] [children][data-command-emulation][body] "
                      "size=%" G_GSIZE_FORMAT,
                      priv->tag, size);
-        success = milter_manager_children_data(children);
-        if (success) {
-            milter_debug("[%u] [children][pending-message-request][body][keep] "
-                         "size=%" G_GSIZE_FORMAT,
-                         priv->tag, size);
-            dispose_pending_message_request(priv);
-            priv->pending_message_request =
-                pending_body_request_new(chunk, size);
-        }
-        return success;
+        milter_debug("[%u] [children][pending-message-request][body][keep] "
+                     "size=%" G_GSIZE_FORMAT,
+                     priv->tag, size);
+        return emulate_data_command(children,
+                                    pending_body_request_new(chunk, size));
     }
 
     milter_debug("[%u] [children][body] size=%" G_GSIZE_FORMAT,
@@ -4408,20 +4417,14 @@ milter_manager_children_end_of_message (MilterManagerChildren *children,
     priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
 
     if (need_data_commmand_emulation(priv)) {
-        gboolean success;
         milter_debug("[%u] [children][data-command-emulation][end-of-message] "
                      "size=%" G_GSIZE_FORMAT,
                      priv->tag, size);
-        success = milter_manager_children_data(children);
-        if (success) {
-            milter_debug("[%u] [children][pending-message-request]"
-                         "[end-of-message][keep] size=%" G_GSIZE_FORMAT,
-                         priv->tag, size);
-            dispose_pending_message_request(priv);
-            priv->pending_message_request =
-                pending_end_of_message_request_new(chunk, size);
-        }
-        return success;
+        milter_debug("[%u] [children][pending-message-request]"
+                     "[end-of-message][keep] size=%" G_GSIZE_FORMAT,
+                     priv->tag, size);
+        return emulate_data_command(children,
+                                    pending_end_of_message_request_new(chunk, size));
     }
 
     init_command_waiting_child_queue(children, MILTER_COMMAND_END_OF_MESSAGE);
@@ -4489,6 +4492,7 @@ milter_manager_children_abort (MilterManagerChildren *children)
 
     priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
 
+    priv->waiting_data = FALSE;
     set_state(children, MILTER_SERVER_CONTEXT_STATE_ABORT);
     for (child = priv->milters; child; child = g_list_next(child)) {
         MilterServerContext *context = MILTER_SERVER_CONTEXT(child->data);
-- 
2.43.0


From 2eb5eb8f690b7d2a1cc3bc075b4efd710643ce42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:04 +0000
Subject: [PATCH 38/66] fix: a session hung when a milter answered with
 connection failure or shutdown

---
 milter/manager/milter-manager-children.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index 3bfd87b..36fd8a8 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -192,6 +192,9 @@ static void prepare_retry_establish_connection
 static void remove_queue_in_negotiate
                            (MilterManagerChildren *children,
                             MilterManagerChild *child);
+static void fail_child
+                           (MilterManagerChildren *children,
+                            MilterServerContext *context);
 static MilterServerContext *get_first_child_in_command_waiting_child_queue
                            (MilterManagerChildren *children);
 static gboolean write_body (MilterManagerChildren *children,
@@ -2426,7 +2429,10 @@ cb_quarantine (MilterServerContext *context,
 static void
 cb_connection_failure (MilterServerContext *context, gpointer user_data)
 {
-    g_signal_emit_by_name(user_data, "connection-failure");
+    MilterManagerChildren *children = user_data;
+
+    g_signal_emit_by_name(children, "connection-failure");
+    fail_child(children, context);
 }
 
 static void
@@ -2435,6 +2441,7 @@ cb_shutdown (MilterServerContext *context, gpointer user_data)
     MilterManagerChildren *children = user_data;
 
     g_signal_emit_by_name(children, "shutdown");
+    fail_child(children, context);
 }
 
 static void
-- 
2.43.0


From 670e86d195c274a2a6cf6f920bf41a248655d221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:04 +0000
Subject: [PATCH 39/66] fix: answers of a milter that nobody waited for were
 taken as answers to other commands

---
 milter/manager/milter-manager-children.c |  36 ++----
 milter/server/milter-server-context.c    | 154 ++++++++++++++++++-----
 milter/server/milter-server-context.h    |  12 ++
 3 files changed, 150 insertions(+), 52 deletions(-)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index 36fd8a8..9490eb5 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -1249,16 +1249,6 @@ emit_replace_body_signal (MilterManagerChildren *children)
         return emit_replace_body_signal_file(children);
 }
 
-static void
-continue_without_reply (MilterManagerChildren *children,
-                        MilterServerContext *context,
-                        MilterServerContextState state)
-{
-    /* The command may not be flushed yet. */
-    milter_server_context_set_state(context, state);
-    g_signal_emit_by_name(context, "continue");
-}
-
 static void
 continue_no_reply_children (MilterManagerChildren *children,
                             GList *targets,
@@ -1275,7 +1265,7 @@ continue_no_reply_children (MilterManagerChildren *children,
             continue;
         if (!g_queue_find(priv->reply_queue, context))
             continue;
-        continue_without_reply(children, context, state);
+        milter_server_context_continue_without_reply(context, state);
     }
 }
 
@@ -1320,9 +1310,8 @@ send_command_to_child (MilterManagerChildren *children,
                     children, context,
                     MILTER_SERVER_CONTEXT_STATE_END_OF_HEADER,
                     MILTER_STEP_NO_END_OF_HEADER)) {
-                continue_without_reply(
-                    children, context,
-                    MILTER_SERVER_CONTEXT_STATE_END_OF_HEADER);
+                milter_server_context_continue_without_reply(
+                    context, MILTER_SERVER_CONTEXT_STATE_END_OF_HEADER);
             }
         }
         break;
@@ -2055,7 +2044,8 @@ is_end_of_message_state (MilterManagerChildren *children,
     priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
     state = milter_server_context_get_state(context);
 
-    if (state == MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE)
+    if (state == MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE &&
+        priv->original_headers)
         return TRUE;
 
     if (milter_need_error_log()) {
@@ -3072,7 +3062,8 @@ remove_queue_in_negotiate (MilterManagerChildren *children,
                  priv->tag,
                  milter_agent_get_tag(MILTER_AGENT(context)),
                  milter_server_context_get_name(context));
-    g_queue_remove(priv->reply_queue, child);
+    if (!g_queue_remove(priv->reply_queue, child))
+        return;
     if (!priv->finished && g_queue_is_empty(priv->reply_queue)) {
         reply_negotiate(children);
     }
@@ -3943,8 +3934,8 @@ send_next_header_to_child (MilterManagerChildren *children, MilterServerContext
         if (is_sent_without_reply(children, context,
                                   MILTER_SERVER_CONTEXT_STATE_HEADER,
                                   MILTER_STEP_NO_HEADERS)) {
-            continue_without_reply(children, context,
-                                   MILTER_SERVER_CONTEXT_STATE_HEADER);
+            milter_server_context_continue_without_reply(
+                context, MILTER_SERVER_CONTEXT_STATE_HEADER);
         }
         return MILTER_STATUS_PROGRESS;
     } else {
@@ -4209,8 +4200,7 @@ milter_manager_children_body (MilterManagerChildren *children,
          * If the first child is not needed the command,
          * send dummy "continue" to shift next state.
          */
-        milter_server_context_set_state(first_child, MILTER_SERVER_CONTEXT_STATE_BODY);
-        g_signal_emit_by_name(first_child, "continue");
+        milter_server_context_continue_without_reply(first_child, state);
         return TRUE;
     }
 
@@ -4218,7 +4208,7 @@ milter_manager_children_body (MilterManagerChildren *children,
         return FALSE;
     if (is_sent_without_reply(children, first_child, state,
                               MILTER_STEP_NO_BODY))
-        continue_without_reply(children, first_child, state);
+        milter_server_context_continue_without_reply(first_child, state);
     return TRUE;
 }
 
@@ -4401,8 +4391,8 @@ send_body_to_child (MilterManagerChildren *children, MilterServerContext *contex
         is_sent_without_reply(children, context,
                               MILTER_SERVER_CONTEXT_STATE_BODY,
                               MILTER_STEP_NO_BODY)) {
-        continue_without_reply(children, context,
-                               MILTER_SERVER_CONTEXT_STATE_BODY);
+        milter_server_context_continue_without_reply(
+            context, MILTER_SERVER_CONTEXT_STATE_BODY);
     }
 
     if (status != MILTER_STATUS_PROGRESS)
diff --git a/milter/server/milter-server-context.c b/milter/server/milter-server-context.c
index 4612a33..a00616a 100644
--- a/milter/server/milter-server-context.c
+++ b/milter/server/milter-server-context.c
@@ -106,6 +106,7 @@ struct _MilterServerContextPrivate
     GList *body_response_queue;
     guint process_body_count;
     gboolean sent_end_of_message;
+    gboolean waiting_reply;
 
     GTimer *elapsed;
 
@@ -791,6 +792,13 @@ milter_server_context_get_state (MilterServerContext *context)
     return MILTER_SERVER_CONTEXT_GET_PRIVATE(context)->state;
 }
 
+static gboolean
+is_reply_state (MilterServerContextState state)
+{
+    return MILTER_SERVER_CONTEXT_STATE_NEGOTIATE <= state &&
+        state <= MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE;
+}
+
 void
 milter_server_context_set_state (MilterServerContext *context,
                                  MilterServerContextState state)
@@ -806,6 +814,8 @@ milter_server_context_set_state (MilterServerContext *context,
         state <= MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE)
         priv->last_state = state;
     priv->state = state;
+    priv->waiting_reply = is_reply_state(state) &&
+        (!priv->option || milter_server_context_need_reply(context, state));
 
     if (milter_need_debug_log()) {
         const gchar *name;
@@ -838,6 +848,22 @@ milter_server_context_set_state (MilterServerContext *context,
     }
 }
 
+static void
+set_state_without_reply (MilterServerContext *context,
+                         MilterServerContextState state)
+{
+    milter_server_context_set_state(context, state);
+    MILTER_SERVER_CONTEXT_GET_PRIVATE(context)->waiting_reply = FALSE;
+}
+
+void
+milter_server_context_continue_without_reply (MilterServerContext *context,
+                                              MilterServerContextState state)
+{
+    set_state_without_reply(context, state);
+    g_signal_emit_by_name(context, "continue");
+}
+
 MilterServerContextState
 milter_server_context_get_last_state (MilterServerContext *context)
 {
@@ -1674,7 +1700,7 @@ stop_on_state (MilterServerContext *context, MilterServerContextState state)
     }
 
     priv->status = MILTER_STATUS_STOP;
-    milter_server_context_set_state(context, state);
+    set_state_without_reply(context, state);
 
     g_signal_emit_by_name(context, "stopped");
 
@@ -1750,8 +1776,7 @@ milter_server_context_helo (MilterServerContext *context,
 
     if (milter_server_context_is_enable_step(context, MILTER_STEP_NO_HELO)) {
         milter_debug("[%u] [server][helo][skip] %s", tag, name);
-        milter_server_context_set_state(context,
-                                        MILTER_SERVER_CONTEXT_STATE_HELO);
+        set_state_without_reply(context, MILTER_SERVER_CONTEXT_STATE_HELO);
         g_signal_emit_by_name(context, "continue");
         return TRUE;
     }
@@ -1839,8 +1864,7 @@ milter_server_context_connect (MilterServerContext *context,
 
     if (milter_server_context_is_enable_step(context, MILTER_STEP_NO_CONNECT)) {
         milter_debug("[%u] [server][connect][skip] %s", tag, name);
-        milter_server_context_set_state(context,
-                                        MILTER_SERVER_CONTEXT_STATE_CONNECT);
+        set_state_without_reply(context, MILTER_SERVER_CONTEXT_STATE_CONNECT);
         g_signal_emit_by_name(context, "continue");
         return TRUE;
     }
@@ -1929,7 +1953,7 @@ milter_server_context_envelope_from (MilterServerContext *context,
     if (milter_server_context_is_enable_step(context,
                                              MILTER_STEP_NO_ENVELOPE_FROM)) {
         milter_debug("[%u] [server][envelope-from][skip] %s", tag, name);
-        milter_server_context_set_state(
+        set_state_without_reply(
             context, MILTER_SERVER_CONTEXT_STATE_ENVELOPE_FROM);
         g_signal_emit_by_name(context, "continue");
         return TRUE;
@@ -1991,7 +2015,7 @@ milter_server_context_envelope_recipient (MilterServerContext *context,
     if (milter_server_context_is_enable_step(
             context, MILTER_STEP_NO_ENVELOPE_RECIPIENT)) {
         milter_debug("[%u] [server][envelope-recipient][skip] %s", tag, name);
-        milter_server_context_set_state(
+        set_state_without_reply(
             context, MILTER_SERVER_CONTEXT_STATE_ENVELOPE_RECIPIENT);
         g_signal_emit_by_name(context, "continue");
         return TRUE;
@@ -2044,8 +2068,7 @@ milter_server_context_data (MilterServerContext *context)
     if (milter_option_get_version(priv->option) < 4 ||
         milter_server_context_is_enable_step(context, MILTER_STEP_NO_DATA)) {
         milter_debug("[%u] [server][data][skip] %s", tag, name);
-        milter_server_context_set_state(context,
-                                        MILTER_SERVER_CONTEXT_STATE_DATA);
+        set_state_without_reply(context, MILTER_SERVER_CONTEXT_STATE_DATA);
         g_signal_emit_by_name(context, "continue");
         return TRUE;
     }
@@ -2079,8 +2102,7 @@ milter_server_context_unknown (MilterServerContext *context,
     if (milter_server_context_is_enable_step(context, MILTER_STEP_NO_UNKNOWN)) {
         milter_debug("[%u] [server][unknown][skip] [%s]",
                      tag, NULL_SAFE_NAME(name));
-        milter_server_context_set_state(context,
-                                        MILTER_SERVER_CONTEXT_STATE_UNKNOWN);
+        set_state_without_reply(context, MILTER_SERVER_CONTEXT_STATE_UNKNOWN);
         g_signal_emit_by_name(context, "continue");
         return TRUE;
     }
@@ -2135,8 +2157,7 @@ milter_server_context_header (MilterServerContext *context,
     if (milter_server_context_is_enable_step(context, MILTER_STEP_NO_HEADERS)) {
         milter_debug("[%u] [server][header][skip] [%s]",
                      tag, NULL_SAFE_NAME(name));
-        milter_server_context_set_state(context,
-                                        MILTER_SERVER_CONTEXT_STATE_HEADER);
+        set_state_without_reply(context, MILTER_SERVER_CONTEXT_STATE_HEADER);
         g_signal_emit_by_name(context, "continue");
         return TRUE;
     }
@@ -2191,7 +2212,7 @@ milter_server_context_end_of_header (MilterServerContext *context)
                                              MILTER_STEP_NO_END_OF_HEADER)) {
         milter_debug("[%u] [server][end-of-header][skip] [%s]",
                      tag, NULL_SAFE_NAME(name));
-        milter_server_context_set_state(
+        set_state_without_reply(
             context, MILTER_SERVER_CONTEXT_STATE_END_OF_HEADER);
         g_signal_emit_by_name(context, "continue");
         return TRUE;
@@ -2245,7 +2266,7 @@ milter_server_context_body (MilterServerContext *context,
     if (milter_server_context_is_enable_step(context, MILTER_STEP_NO_BODY)) {
         milter_debug("[%u] [server][body][skip] [%s]",
                      tag, NULL_SAFE_NAME(name));
-        milter_server_context_set_state(context, state);
+        set_state_without_reply(context, state);
         g_signal_emit_by_name(context, "skip");
         return TRUE;
     }
@@ -2429,6 +2450,35 @@ invalid_state (MilterServerContext *context,
     g_free(state_name);
 }
 
+/* A milter must not reply to a command that isn't sent or is already
+ * replied. */
+static gboolean
+check_reply_waited (MilterServerContext *context, const gchar *reply_name)
+{
+    MilterServerContextPrivate *priv;
+
+    priv = MILTER_SERVER_CONTEXT_GET_PRIVATE(context);
+    if (priv->state < MILTER_SERVER_CONTEXT_STATE_NEGOTIATE ||
+        (priv->waiting_reply &&
+         priv->state > MILTER_SERVER_CONTEXT_STATE_NEGOTIATE))
+        return TRUE;
+
+    if (check_reply_after_quit(context, priv->state, reply_name))
+        invalid_state(context, priv->state, reply_name,
+                      "state that waits for reply");
+    return FALSE;
+}
+
+static gboolean
+check_replied (MilterServerContext *context, const gchar *reply_name)
+{
+    if (!check_reply_waited(context, reply_name))
+        return FALSE;
+
+    MILTER_SERVER_CONTEXT_GET_PRIVATE(context)->waiting_reply = FALSE;
+    return TRUE;
+}
+
 static void
 cb_decoder_negotiate_reply (MilterDecoder *decoder,
                             MilterOption *option,
@@ -2462,6 +2512,13 @@ cb_decoder_negotiate_reply (MilterDecoder *decoder,
         g_free(inspected_option);
     }
 
+    if (!priv->waiting_reply ||
+        state != MILTER_SERVER_CONTEXT_STATE_NEGOTIATE) {
+        invalid_state(context, state, "negotiate-reply", "negotiate");
+        return;
+    }
+    priv->waiting_reply = FALSE;
+
     if (priv->option) {
         if (!milter_option_combine(priv->option, option)) {
             GError *error = NULL;
@@ -2482,20 +2539,16 @@ cb_decoder_negotiate_reply (MilterDecoder *decoder,
         priv->option = milter_option_copy(option);
     }
 
-    if (state == MILTER_SERVER_CONTEXT_STATE_NEGOTIATE) {
-        g_timer_stop(priv->elapsed);
-        milter_debug("[%u] [server][timer][stop] [%s] <%g>",
-                     tag, name, g_timer_elapsed(priv->elapsed, NULL));
-        if (check_reply_after_quit(context, state, "negotiate-reply")) {
-            MilterProtocolAgent *agent;
-            agent = MILTER_PROTOCOL_AGENT(context);
-            priv->negotiated = TRUE;
-            milter_protocol_agent_set_macros_requests(agent, macros_requests);
-            g_signal_emit_by_name(context, "negotiate-reply",
-                                  option, macros_requests);
-        }
-    } else {
-        invalid_state(context, state, "negotiate-reply", "negotiate");
+    g_timer_stop(priv->elapsed);
+    milter_debug("[%u] [server][timer][stop] [%s] <%g>",
+                 tag, name, g_timer_elapsed(priv->elapsed, NULL));
+    if (check_reply_after_quit(context, state, "negotiate-reply")) {
+        MilterProtocolAgent *agent;
+        agent = MILTER_PROTOCOL_AGENT(context);
+        priv->negotiated = TRUE;
+        milter_protocol_agent_set_macros_requests(agent, macros_requests);
+        g_signal_emit_by_name(context, "negotiate-reply",
+                              option, macros_requests);
     }
 }
 
@@ -2569,6 +2622,9 @@ cb_decoder_continue (MilterReplyDecoder *decoder, gpointer user_data)
     context = MILTER_SERVER_CONTEXT(user_data);
     priv = MILTER_SERVER_CONTEXT_GET_PRIVATE(context);
 
+    if (!check_replied(context, "continue"))
+        return;
+
     disable_timeout(context);
 
     if (milter_need_debug_log()) {
@@ -2640,6 +2696,9 @@ cb_decoder_reply_code (MilterReplyDecoder *decoder,
 
     priv = MILTER_SERVER_CONTEXT_GET_PRIVATE(context);
 
+    if (!check_replied(context, "reply-code"))
+        return;
+
     if (milter_need_debug_log()) {
         tag = milter_agent_get_tag(MILTER_AGENT(context));
         name = milter_server_context_get_name(context);
@@ -2721,6 +2780,9 @@ cb_decoder_temporary_failure (MilterReplyDecoder *decoder, gpointer user_data)
 
     priv = MILTER_SERVER_CONTEXT_GET_PRIVATE(context);
 
+    if (!check_replied(context, "temporary-failure"))
+        return;
+
     if (priv->state == MILTER_SERVER_CONTEXT_STATE_ENVELOPE_RECIPIENT) {
         priv->envelope_recipient_status = MILTER_STATUS_TEMPORARY_FAILURE;
         ensure_message_result(priv);
@@ -2784,6 +2846,9 @@ cb_decoder_reject (MilterReplyDecoder *decoder, gpointer user_data)
 
     priv = MILTER_SERVER_CONTEXT_GET_PRIVATE(context);
 
+    if (!check_replied(context, "reject"))
+        return;
+
     if (priv->state == MILTER_SERVER_CONTEXT_STATE_ENVELOPE_RECIPIENT) {
         priv->envelope_recipient_status = MILTER_STATUS_REJECT;
         ensure_message_result(priv);
@@ -2846,6 +2911,10 @@ cb_decoder_accept (MilterReplyDecoder *decoder, gpointer user_data)
     MilterServerContextPrivate *priv;
 
     priv = MILTER_SERVER_CONTEXT_GET_PRIVATE(context);
+
+    if (!check_replied(context, "accept"))
+        return;
+
     priv->status = MILTER_STATUS_ACCEPT;
 
     disable_timeout(context);
@@ -2895,6 +2964,10 @@ cb_decoder_discard (MilterReplyDecoder *decoder, gpointer user_data)
     MilterServerContextPrivate *priv;
 
     priv = MILTER_SERVER_CONTEXT_GET_PRIVATE(user_data);
+
+    if (!check_replied(context, "discard"))
+        return;
+
     priv->status = MILTER_STATUS_DISCARD;
 
     disable_timeout(context);
@@ -2955,6 +3028,8 @@ cb_decoder_add_header (MilterReplyDecoder *decoder,
     if (priv->state == MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE) {
         MilterHeaders *headers;
 
+        if (!check_reply_waited(context, "add-header"))
+            return;
         if (!check_reply_after_quit(context, priv->state, "add-header"))
             return;
 
@@ -2990,6 +3065,8 @@ cb_decoder_insert_header (MilterReplyDecoder *decoder,
     if (priv->state == MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE) {
         MilterHeaders *headers;
 
+        if (!check_reply_waited(context, "insert-header"))
+            return;
         if (!check_reply_after_quit(context, priv->state, "insert-header"))
             return;
 
@@ -3025,6 +3102,8 @@ cb_decoder_change_header (MilterReplyDecoder *decoder,
     if (priv->state == MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE) {
         MilterHeaders *headers;
 
+        if (!check_reply_waited(context, "change-header"))
+            return;
         if (!check_reply_after_quit(context, priv->state, "change-header"))
             return;
 
@@ -3058,6 +3137,8 @@ cb_decoder_delete_header (MilterReplyDecoder *decoder,
     if (priv->state == MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE) {
         MilterHeaders *headers;
 
+        if (!check_reply_waited(context, "delete-header"))
+            return;
         if (!check_reply_after_quit(context, priv->state, "delete-header"))
             return;
 
@@ -3089,6 +3170,8 @@ cb_decoder_change_from (MilterReplyDecoder *decoder,
                  MILTER_LOG_NULL_SAFE_STRING(parameters));
 
     if (priv->state == MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE) {
+        if (!check_reply_waited(context, "change-from"))
+            return;
         if (!check_reply_after_quit(context, priv->state, "change-from"))
             return;
         g_signal_emit_by_name(context, "change-from", from, parameters);
@@ -3115,6 +3198,8 @@ cb_decoder_add_recipient (MilterReplyDecoder *decoder,
                  MILTER_LOG_NULL_SAFE_STRING(parameters));
 
     if (priv->state == MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE) {
+        if (!check_reply_waited(context, "add-recipient"))
+            return;
         if (!check_reply_after_quit(context, priv->state, "add-recipient"))
             return;
         g_signal_emit_by_name(context, "add-recipient", recipient, parameters);
@@ -3139,6 +3224,8 @@ cb_decoder_delete_recipient (MilterReplyDecoder *decoder,
                  MILTER_LOG_NULL_SAFE_STRING(recipient));
 
     if (priv->state == MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE) {
+        if (!check_reply_waited(context, "delete-recipient"))
+            return;
         if (!check_reply_after_quit(context, priv->state, "delete-recipient"))
             return;
         g_signal_emit_by_name(user_data, "delete-recipient", recipient);
@@ -3166,6 +3253,8 @@ cb_decoder_replace_body (MilterReplyDecoder *decoder,
                  body_size);
 
     if (priv->state == MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE) {
+        if (!check_reply_waited(context, "replace-body"))
+            return;
         if (!check_reply_after_quit(context, priv->state, "replace-body"))
             return;
         g_signal_emit_by_name(context, "replace-body", body, body_size);
@@ -3187,6 +3276,8 @@ cb_decoder_progress (MilterReplyDecoder *decoder, gpointer user_data)
                  milter_server_context_get_name(context));
 
     if (priv->state == MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE) {
+        if (!check_reply_waited(context, "progress"))
+            return;
         if (!check_reply_after_quit(context, priv->state, "progress"))
             return;
         reset_end_of_message_timeout(context);
@@ -3213,6 +3304,8 @@ cb_decoder_quarantine (MilterReplyDecoder *decoder,
                  reason);
 
     if (priv->state == MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE) {
+        if (!check_reply_waited(context, "quarantine"))
+            return;
         if (!check_reply_after_quit(context, priv->state, "quarantine"))
             return;
 
@@ -3294,6 +3387,9 @@ cb_decoder_skip (MilterReplyDecoder *decoder, gpointer user_data)
 
     priv = MILTER_SERVER_CONTEXT_GET_PRIVATE(context);
 
+    if (!check_replied(context, "skip"))
+        return;
+
     if (milter_need_debug_log()) {
         tag = milter_agent_get_tag(MILTER_AGENT(context));
         name = milter_server_context_get_name(context);
diff --git a/milter/server/milter-server-context.h b/milter/server/milter-server-context.h
index 9e2e386..4983161 100644
--- a/milter/server/milter-server-context.h
+++ b/milter/server/milter-server-context.h
@@ -374,6 +374,18 @@ MilterServerContextState milter_server_context_get_state (MilterServerContext *c
 void                 milter_server_context_set_state   (MilterServerContext *context,
                                                         MilterServerContextState state);
 
+/**
+ * milter_server_context_continue_without_reply:
+ * @context: a %MilterServerContext.
+ * @state: the new state.
+ *
+ * Sets the current state and emits "continue" signal for a
+ * command that isn't replied by milter.
+ */
+void                 milter_server_context_continue_without_reply
+                                                       (MilterServerContext *context,
+                                                        MilterServerContextState state);
+
 /**
  * milter_server_context_get_last_state:
  * @context: a %MilterServerContext.
-- 
2.43.0


From 5b1ed0781be5e36f62363ae77ec671176ca56d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:56 +0000
Subject: [PATCH 40/66] fix: call a timeout whose interval is 0 again while it
 returns TRUE on libev

---
 milter/core/milter-libev-event-loop.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/milter/core/milter-libev-event-loop.c b/milter/core/milter-libev-event-loop.c
index 0f8edf2..e66b540 100644
--- a/milter/core/milter-libev-event-loop.c
+++ b/milter/core/milter-libev-event-loop.c
@@ -590,6 +590,18 @@ timer_func (struct ev_loop *loop, ev_timer *watcher, int revents)
     id = watcher_priv->id;
     if (!timer_watcher_priv->function(watcher_priv->user_data)) {
         remove_watcher(milter_event_loop, id);
+    } else {
+        MilterLibevEventLoopPrivate *priv;
+
+        /* libev stops a timer whose interval is 0 after the first time. */
+        priv = MILTER_LIBEV_EVENT_LOOP_GET_PRIVATE(milter_event_loop);
+        if (priv->watchers &&
+            g_hash_table_lookup(priv->watchers,
+                                GUINT_TO_POINTER(id)) == watcher &&
+            !ev_is_active(watcher)) {
+            ev_timer_set(watcher, 0, 0);
+            ev_timer_start(priv->ev_loop, watcher);
+        }
     }
 }
 
-- 
2.43.0


From 66611c1dd8e2f650cbb85b723e174c6df024aa7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:46 +0000
Subject: [PATCH 41/66] fix: the control connection was never served because
 the controller had no event loop

---
 milter/manager/milter-manager-main.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/milter/manager/milter-manager-main.c b/milter/manager/milter-manager-main.c
index 1645f48..f920e5a 100644
--- a/milter/manager/milter-manager-main.c
+++ b/milter/manager/milter-manager-main.c
@@ -657,6 +657,11 @@ milter_manager_main (void)
     }
 
     loop = milter_client_get_event_loop(client);
+    if (!loop) {
+        loop = milter_client_create_event_loop(client, TRUE);
+        milter_client_set_event_loop(client, loop);
+        g_object_unref(loop);
+    }
     controller = milter_manager_controller_new(manager, loop);
     if (controller && !milter_manager_controller_listen(controller, &error)) {
         milter_manager_error("failed to listen controller socket: %s",
-- 
2.43.0


From 73e4c50942e9b9ddfeb435bef8c27146cdd18ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:46 +0000
Subject: [PATCH 42/66] fix: accepting a control connection that is already
 gone stalled all sessions

---
 milter/manager/milter-manager-controller.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/milter/manager/milter-manager-controller.c b/milter/manager/milter-manager-controller.c
index 9bb742c..a6f7857 100644
--- a/milter/manager/milter-manager-controller.c
+++ b/milter/manager/milter-manager-controller.c
@@ -304,7 +304,8 @@ accept_connection (gint controller_fd, MilterManagerController *controller)
     agent_fd = accept(controller_fd,
                       (struct sockaddr *)(&address), &address_size);
     if (agent_fd == -1) {
-        milter_error("[controller][error][accept] %s", g_strerror(errno));
+        if (errno != EAGAIN && errno != EWOULDBLOCK)
+            milter_error("[controller][error][accept] %s", g_strerror(errno));
         return TRUE;
     }
 
@@ -478,6 +479,10 @@ milter_manager_controller_listen (MilterManagerController *controller,
         return FALSE;
     }
 
+    /* The pending connection may be gone or taken by another
+     * process when accept() is called. */
+    g_io_channel_set_flags(channel, G_IO_FLAG_NONBLOCK, NULL);
+
     priv->spec = g_strdup(spec);
     priv->watch_id =
         milter_event_loop_watch_io(priv->event_loop, channel,
-- 
2.43.0


From 96a954bd932d9a051517a91a779394aeb766ca5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:58 +0000
Subject: [PATCH 43/66] fix: a control connection was left open without an
 answer for ever after a malformed or unknown request

---
 .../milter-manager-control-command-decoder.c  |  2 +-
 .../milter-manager-controller-context.c       | 21 +++++++++++++++++++
 .../milter-manager-controller-context.h       |  3 +++
 milter/manager/milter-manager-controller.c    | 18 ++++++++++++++++
 4 files changed, 43 insertions(+), 1 deletion(-)

diff --git a/milter/manager/milter-manager-control-command-decoder.c b/milter/manager/milter-manager-control-command-decoder.c
index 55870ac..5299792 100644
--- a/milter/manager/milter-manager-control-command-decoder.c
+++ b/milter/manager/milter-manager-control-command-decoder.c
@@ -221,7 +221,7 @@ decode (MilterDecoder *decoder, GError **error)
         milter_decoder_decode_null_terminated_value(
             buffer, length, error,
             "control command isn't terminated by NULL");
-    if (null_character_point <= 0)
+    if (null_character_point < 0)
         return FALSE;
 
     content = buffer + null_character_point + 1;
diff --git a/milter/manager/milter-manager-controller-context.c b/milter/manager/milter-manager-controller-context.c
index 2137018..3e4a30e 100644
--- a/milter/manager/milter-manager-controller-context.c
+++ b/milter/manager/milter-manager-controller-context.c
@@ -89,6 +89,27 @@ milter_manager_controller_context_class_init (MilterManagerControllerContextClas
                              sizeof(MilterManagerControllerContextPrivate));
 }
 
+void
+milter_manager_controller_context_reply_error (MilterManagerControllerContext *context,
+                                               const gchar *message)
+{
+    MilterAgent *agent;
+    MilterEncoder *encoder;
+    GError *error = NULL;
+    const gchar *packet;
+    gsize packet_size;
+
+    agent = MILTER_AGENT(context);
+    encoder = milter_agent_get_encoder(agent);
+    milter_manager_control_reply_encoder_encode_error(
+        MILTER_MANAGER_CONTROL_REPLY_ENCODER(encoder),
+        &packet, &packet_size, message);
+    if (!milter_agent_write_packet(agent, packet, packet_size, &error)) {
+        milter_error("[controller][error][write][error] %s", error->message);
+        g_error_free(error);
+    }
+}
+
 static void
 cb_decoder_set_configuration (MilterManagerControlCommandDecoder *decoder,
                               const gchar *configuration, gsize size,
diff --git a/milter/manager/milter-manager-controller-context.h b/milter/manager/milter-manager-controller-context.h
index bcb694d..c2d0eaf 100644
--- a/milter/manager/milter-manager-controller-context.h
+++ b/milter/manager/milter-manager-controller-context.h
@@ -52,6 +52,9 @@ GType                 milter_manager_controller_context_get_type    (void) G_GNU
 
 MilterManagerControllerContext *milter_manager_controller_context_new
                                           (MilterManager *manager);
+void                  milter_manager_controller_context_reply_error
+                                                  (MilterManagerControllerContext *context,
+                                                   const gchar *message);
 
 G_END_DECLS
 
diff --git a/milter/manager/milter-manager-controller.c b/milter/manager/milter-manager-controller.c
index a6f7857..879950b 100644
--- a/milter/manager/milter-manager-controller.c
+++ b/milter/manager/milter-manager-controller.c
@@ -259,6 +259,22 @@ cb_context_reader_finished (MilterReader *reader, gpointer data)
                                     NULL);
 }
 
+static void
+cb_context_error (MilterErrorEmittable *emittable, GError *error,
+                  gpointer data)
+{
+    MilterManagerControllerContext *context =
+        MILTER_MANAGER_CONTROLLER_CONTEXT(emittable);
+
+    if (error->domain != MILTER_AGENT_ERROR ||
+        error->code != MILTER_AGENT_ERROR_DECODE_ERROR)
+        return;
+
+    /* Nothing more can be decoded. */
+    milter_manager_controller_context_reply_error(context, error->message);
+    milter_agent_shutdown(MILTER_AGENT(context));
+}
+
 static void
 process_connection(MilterManagerController *controller,
                    GIOChannel *agent_channel)
@@ -283,6 +299,8 @@ process_connection(MilterManagerController *controller,
 
     g_signal_connect(reader, "finished",
                      G_CALLBACK(cb_context_reader_finished), context);
+    g_signal_connect(context, "error",
+                     G_CALLBACK(cb_context_error), NULL);
 
     if (!milter_agent_start(MILTER_AGENT(context), &error)) {
         milter_error("[controller][error][start] %s", error->message);
-- 
2.43.0


From 354fb9e212368f3306450bd46cac924d3bead705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:58 +0000
Subject: [PATCH 44/66] fix: a failed reload was answered as a success on the
 control connection

---
 milter/manager/milter-manager-controller-context.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/milter/manager/milter-manager-controller-context.c b/milter/manager/milter-manager-controller-context.c
index 3e4a30e..0807131 100644
--- a/milter/manager/milter-manager-controller-context.c
+++ b/milter/manager/milter-manager-controller-context.c
@@ -213,10 +213,15 @@ cb_decoder_reload (MilterManagerControlCommandDecoder *decoder,
     priv = MILTER_MANAGER_CONTROLLER_CONTEXT_GET_PRIVATE(context);
     config = milter_manager_get_configuration(priv->manager);
     if (!milter_manager_configuration_reload(config, &error)) {
-        milter_error("[controller][reload][error] %s",
-                     error->message);
+        gchar *message;
+
+        message = g_strdup_printf("failed to reload configuration: %s",
+                                  error->message);
         g_error_free(error);
-        error = NULL;
+        milter_error("[controller][reload][error] %s", message);
+        milter_manager_controller_context_reply_error(context, message);
+        g_free(message);
+        return;
     }
 
     agent = MILTER_AGENT(context);
-- 
2.43.0


From 15f2a5766dad30f59322d7b1957219706d87b3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:42 +0000
Subject: [PATCH 45/66] fix: every configuration shown or saved on a control
 connection leaked memory

---
 milter/manager/milter-manager-configuration.c      | 3 ++-
 milter/manager/milter-manager-controller-context.c | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/milter/manager/milter-manager-configuration.c b/milter/manager/milter-manager-configuration.c
index ba9498f..8c1fdd5 100644
--- a/milter/manager/milter-manager-configuration.c
+++ b/milter/manager/milter-manager-configuration.c
@@ -1226,8 +1226,8 @@ milter_manager_configuration_save_custom (MilterManagerConfiguration *configurat
                     MILTER_MANAGER_CONFIGURATION_ERROR_SAVE,
                     "can't find writable custom configuration file in %s",
                     inspected_tried_paths->str);
-        g_string_free(inspected_tried_paths, TRUE);
     }
+    g_string_free(inspected_tried_paths, TRUE);
 
     return success;
 }
@@ -2196,6 +2196,7 @@ milter_manager_configuration_to_xml_string (MilterManagerConfiguration *configur
             milter_utils_xml_append_text_element(string,
                                                  "last-modified", content,
                                                  indent + 2);
+            g_free(content);
         }
         g_free(full_path);
     }
diff --git a/milter/manager/milter-manager-controller-context.c b/milter/manager/milter-manager-controller-context.c
index 0807131..5022ef2 100644
--- a/milter/manager/milter-manager-controller-context.c
+++ b/milter/manager/milter-manager-controller-context.c
@@ -160,6 +160,7 @@ cb_decoder_set_configuration (MilterManagerControlCommandDecoder *decoder,
                          error->message);
             g_error_free(error);
         }
+        g_free(message);
     }
 }
 
-- 
2.43.0


From b94a5f31aece72945820bef72424703230d7e808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:39 +0000
Subject: [PATCH 46/66] fix: accepting a connection that is already gone
 stalled all sessions

---
 milter/client/milter-client.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/milter/client/milter-client.c b/milter/client/milter-client.c
index 9526be3..6188d53 100644
--- a/milter/client/milter-client.c
+++ b/milter/client/milter-client.c
@@ -2129,6 +2129,9 @@ milter_client_prepare (MilterClient *client, MilterEventLoop *loop,
         return FALSE;
     }
 
+    /* The pending connection may be gone when accept() is called. */
+    g_io_channel_set_flags(priv->listening_channel, G_IO_FLAG_NONBLOCK, NULL);
+
     watch_accept(client, loop, G_PRIORITY_DEFAULT, accept_func);
     priv->accept_error_watch_id =
         milter_event_loop_watch_io(loop,
-- 
2.43.0


From 1cc38de9605feeebe89c6cafb41583f1bff83fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:06 +0000
Subject: [PATCH 47/66] fix: macros of an unknown command were not visible to
 its callback

---
 milter/client/milter-client-context.c | 1 +
 milter/core/milter-protocol-agent.c   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/milter/client/milter-client-context.c b/milter/client/milter-client-context.c
index a5d79de..62f131a 100644
--- a/milter/client/milter-client-context.c
+++ b/milter/client/milter-client-context.c
@@ -4163,6 +4163,7 @@ cb_decoder_unknown (MilterDecoder *decoder,
 
     ensure_message_result(priv);
     disable_timeout(context);
+    set_macro_context(context, MILTER_COMMAND_UNKNOWN);
     g_signal_emit(context, signals[UNKNOWN], 0, command, &status);
     if (status == MILTER_STATUS_PROGRESS)
         return;
diff --git a/milter/core/milter-protocol-agent.c b/milter/core/milter-protocol-agent.c
index afeb0e6..f83aff9 100644
--- a/milter/core/milter-protocol-agent.c
+++ b/milter/core/milter-protocol-agent.c
@@ -59,6 +59,7 @@ static MilterCommand macro_search_order[] = {
     MILTER_COMMAND_END_OF_HEADER,
     MILTER_COMMAND_BODY,
     MILTER_COMMAND_END_OF_MESSAGE,
+    MILTER_COMMAND_UNKNOWN,
     0,
 };
 
-- 
2.43.0


From bfde5b3c3cbead7bfcb10855d9438069ecf86761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:06 +0000
Subject: [PATCH 48/66] fix: a quarantine that was not negotiated was sent to
 the MTA

---
 milter/client/milter-client-context.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/milter/client/milter-client-context.c b/milter/client/milter-client-context.c
index 62f131a..5501d44 100644
--- a/milter/client/milter-client-context.c
+++ b/milter/client/milter-client-context.c
@@ -3285,11 +3285,26 @@ milter_client_context_quarantine (MilterClientContext *context,
                  milter_agent_get_tag(MILTER_AGENT(context)),
                  reason);
 
+    priv = MILTER_CLIENT_CONTEXT_GET_PRIVATE(context);
+    if (priv->option) {
+        GError *error = NULL;
+
+        if (!validate_action("quarantine",
+                             MILTER_ACTION_QUARANTINE,
+                             priv->option,
+                             &error)) {
+            milter_warning("[%u] [client][reply][quarantine][error] %s",
+                           milter_agent_get_tag(MILTER_AGENT(context)),
+                           error->message);
+            g_error_free(error);
+            return FALSE;
+        }
+    }
+
     /* quarantine allows only on end-of-message. */
     milter_statistics("[reply][end-of-message][quarantine](%u)",
                       milter_agent_get_tag(MILTER_AGENT(context)));
 
-    priv = MILTER_CLIENT_CONTEXT_GET_PRIVATE(context);
     if (priv->quarantine_reason)
         g_free(priv->quarantine_reason);
     priv->quarantine_reason = g_strdup(reason);
-- 
2.43.0


From 1d6cb9afbeb76a35db07ab5c57e39787cd6c8a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:06 +0000
Subject: [PATCH 49/66] fix: a recipient with parameters could be added without
 that being negotiated

---
 milter/client/milter-client-context.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/milter/client/milter-client-context.c b/milter/client/milter-client-context.c
index 5501d44..8be9207 100644
--- a/milter/client/milter-client-context.c
+++ b/milter/client/milter-client-context.c
@@ -3093,6 +3093,8 @@ milter_client_context_add_recipient (MilterClientContext *context,
         return FALSE;
 
     if (!validate_action("add-recipient",
+                         (parameters && parameters[0] != '\0') ?
+                         MILTER_ACTION_ADD_ENVELOPE_RECIPIENT_WITH_PARAMETERS :
                          MILTER_ACTION_ADD_ENVELOPE_RECIPIENT,
                          priv->option,
                          error))
-- 
2.43.0


From 033a2851e80a99b9842e482b5c0a742270e41abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:24 +0000
Subject: [PATCH 50/66] fix: macros of an unknown command were not sent to the
 milter

---
 milter/server/milter-server-context.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/milter/server/milter-server-context.c b/milter/server/milter-server-context.c
index a00616a..13cfd5c 100644
--- a/milter/server/milter-server-context.c
+++ b/milter/server/milter-server-context.c
@@ -1642,6 +1642,9 @@ write_packet (MilterServerContext *context,
     case MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE:
         prepend_macro(context, packed_packet, MILTER_COMMAND_END_OF_MESSAGE);
         break;
+    case MILTER_SERVER_CONTEXT_STATE_UNKNOWN:
+        prepend_macro(context, packed_packet, MILTER_COMMAND_UNKNOWN);
+        break;
     default:
         break;
     }
-- 
2.43.0


From 3cd80e1401ac8b4bb09aeb4e9a9e4279f53799b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:24 +0000
Subject: [PATCH 51/66] fix: macros set with braces did not reach a milter that
 requested them

---
 milter/server/milter-server-context.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/milter/server/milter-server-context.c b/milter/server/milter-server-context.c
index 13cfd5c..c62dae8 100644
--- a/milter/server/milter-server-context.c
+++ b/milter/server/milter-server-context.c
@@ -1016,13 +1016,21 @@ filter_macros (GHashTable *macros, GList *request_symbols)
         gsize length;
         gchar *normalized_name;
 
-        /* macros are stored without braces but may be requested with them */
+        /* macros received from an MTA are stored without braces but may be
+         * requested with them. Macros set by an application may have them. */
         length = strlen(name);
         if (length > 2 && name[0] == '{' && name[length - 1] == '}')
             normalized_name = g_strndup(name + 1, length - 2);
         else
             normalized_name = g_strdup(name);
         value = g_hash_table_lookup(macros, normalized_name);
+        if (!value) {
+            gchar *braced_name;
+
+            braced_name = g_strdup_printf("{%s}", normalized_name);
+            value = g_hash_table_lookup(macros, braced_name);
+            g_free(braced_name);
+        }
         if (value) {
             g_hash_table_insert(filtered_macros,
                                 normalized_name,
-- 
2.43.0


From d640c7a2f338b2a53c9503957463696753030ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:52 +0000
Subject: [PATCH 52/66] fix: a spooled body was overwritten after a milter that
 left it half read

---
 milter/manager/milter-manager-children.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index 9490eb5..4f71384 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -4090,7 +4090,12 @@ write_body_to_file (MilterManagerChildren *children,
     if (!chunk || size == 0)
         return TRUE;
 
-    g_io_channel_write_chars(priv->body_file, chunk, size, &written_size, &error);
+    /* A child that didn't need the whole body may have left the file position
+     * in the middle of the file. */
+    g_io_channel_seek_position(priv->body_file, 0, G_SEEK_END, &error);
+    if (!error)
+        g_io_channel_write_chars(priv->body_file, chunk, size,
+                                 &written_size, &error);
     if (error) {
         milter_error("[%u] [children][error][body][write] %s",
                      priv->tag,
-- 
2.43.0


From 5aa5f708f71b6793b00cf5503e67418bf3b83b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:07 +0000
Subject: [PATCH 53/66] fix: a body larger than a packet was continued before
 its rest was sent

---
 milter/server/milter-server-context.c | 65 ++++++++++++++-------------
 1 file changed, 35 insertions(+), 30 deletions(-)

diff --git a/milter/server/milter-server-context.c b/milter/server/milter-server-context.c
index c62dae8..49566b2 100644
--- a/milter/server/milter-server-context.c
+++ b/milter/server/milter-server-context.c
@@ -1304,6 +1304,11 @@ flush_body (MilterServerContext *context)
     g_string_erase(priv->body, 0, packed_size);
     increment_process_body_count(context);
 
+    /* Nothing triggers sending of the rest of the chunk when no reply comes. */
+    if (priv->body->len > 0 &&
+        !milter_server_context_need_reply(context, state))
+        return flush_body(context);
+
     g_timer_stop(priv->elapsed);
     milter_debug("[%u] [server][timer][stop] [%s] <%g>",
                  tag, NULL_SAFE_NAME(name),
@@ -1902,6 +1907,7 @@ reset_message_status (MilterServerContextPrivate *priv)
     }
     priv->process_body_count = 0;
     priv->sent_end_of_message = FALSE;
+    g_string_truncate(priv->body, 0);
 }
 
 void
@@ -2563,12 +2569,24 @@ cb_decoder_negotiate_reply (MilterDecoder *decoder,
     }
 }
 
+static void
+remove_body_response (MilterServerContext *context)
+{
+    MilterServerContextPrivate *priv;
+
+    priv = MILTER_SERVER_CONTEXT_GET_PRIVATE(context);
+    priv->body_response_queue =
+        g_list_delete_link(priv->body_response_queue,
+                           g_list_first(priv->body_response_queue));
+}
+
 static void
 clear_process_body_count (MilterServerContext *context)
 {
     MilterServerContextPrivate *priv;
 
     priv = MILTER_SERVER_CONTEXT_GET_PRIVATE(context);
+    g_string_truncate(priv->body, 0);
     if (priv->body_response_queue) {
         g_list_free(priv->body_response_queue);
         priv->body_response_queue = NULL;
@@ -2654,13 +2672,16 @@ cb_decoder_continue (MilterReplyDecoder *decoder, gpointer user_data)
     switch (priv->state) {
       case MILTER_SERVER_CONTEXT_STATE_BODY:
         if (check_reply_after_quit(context, priv->state, "continue")) {
-            decrement_process_body_count(context);
             if (priv->body->len > 0) {
+                /* The chunk isn't processed until its rest is sent too. */
+                remove_body_response(context);
                 if (!flush_body(context)) {
                     milter_debug("[%u] [server][receive][continue]"
                                  "[body][flush][error] [%s]",
                                  tag, name);
                 }
+            } else {
+                decrement_process_body_count(context);
             }
         }
         break;
@@ -2832,6 +2853,9 @@ cb_decoder_temporary_failure (MilterReplyDecoder *decoder, gpointer user_data)
     if (!check_reply_after_quit(context, priv->state, "temporary-failure"))
         return;
 
+    if (priv->state == MILTER_SERVER_CONTEXT_STATE_BODY)
+        clear_process_body_count(context);
+
     g_signal_emit_by_name(context, "temporary-failure");
     if (MILTER_SERVER_CONTEXT_STATE_ENVELOPE_FROM <= priv->state &&
         priv->state <= MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE &&
@@ -2840,13 +2864,6 @@ cb_decoder_temporary_failure (MilterReplyDecoder *decoder, gpointer user_data)
         emit_message_processed_signal(context);
     }
 
-    switch (priv->state) {
-    case MILTER_SERVER_CONTEXT_STATE_BODY:
-        clear_process_body_count(context);
-        break;
-    default:
-        break;
-    }
 }
 
 static void
@@ -2898,6 +2915,9 @@ cb_decoder_reject (MilterReplyDecoder *decoder, gpointer user_data)
     if (!check_reply_after_quit(context, priv->state, "reject"))
         return;
 
+    if (priv->state == MILTER_SERVER_CONTEXT_STATE_BODY)
+        clear_process_body_count(context);
+
     g_signal_emit_by_name(context, "reject");
     if (MILTER_SERVER_CONTEXT_STATE_ENVELOPE_FROM <= priv->state &&
         priv->state <= MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE &&
@@ -2906,13 +2926,6 @@ cb_decoder_reject (MilterReplyDecoder *decoder, gpointer user_data)
         emit_message_processed_signal(context);
     }
 
-    switch (priv->state) {
-    case MILTER_SERVER_CONTEXT_STATE_BODY:
-        clear_process_body_count(context);
-        break;
-    default:
-        break;
-    }
 }
 
 static void
@@ -2953,19 +2966,15 @@ cb_decoder_accept (MilterReplyDecoder *decoder, gpointer user_data)
     if (!check_reply_after_quit(context, priv->state, "accept"))
         return;
 
+    if (priv->state == MILTER_SERVER_CONTEXT_STATE_BODY)
+        clear_process_body_count(context);
+
     g_signal_emit_by_name(context, "accept");
     if (MILTER_SERVER_CONTEXT_STATE_ENVELOPE_FROM <= priv->state &&
         priv->state <= MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE) {
         emit_message_processed_signal(context);
     }
 
-    switch (priv->state) {
-    case MILTER_SERVER_CONTEXT_STATE_BODY:
-        clear_process_body_count(context);
-        break;
-    default:
-        break;
-    }
 }
 
 static void
@@ -3005,19 +3014,15 @@ cb_decoder_discard (MilterReplyDecoder *decoder, gpointer user_data)
     if (!check_reply_after_quit(context, priv->state, "discard"))
         return;
 
+    if (priv->state == MILTER_SERVER_CONTEXT_STATE_BODY)
+        clear_process_body_count(context);
+
     g_signal_emit_by_name(context, "discard");
     if (MILTER_SERVER_CONTEXT_STATE_ENVELOPE_FROM <= priv->state &&
         priv->state <= MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE) {
         emit_message_processed_signal(context);
     }
 
-    switch (priv->state) {
-    case MILTER_SERVER_CONTEXT_STATE_BODY:
-        clear_process_body_count(context);
-        break;
-    default:
-        break;
-    }
 }
 
 static void
@@ -3417,8 +3422,8 @@ cb_decoder_skip (MilterReplyDecoder *decoder, gpointer user_data)
         if (!check_reply_after_quit(context, priv->state, "skip"))
             return;
         priv->skip_body = TRUE;
-        g_signal_emit_by_name(context, "skip");
         clear_process_body_count(context);
+        g_signal_emit_by_name(context, "skip");
     } else {
         invalid_state(context, priv->state, "skip", "body");
     }
-- 
2.43.0


From 6460ee635706c354386eb424b5ee92e6e0c18953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:18 +0000
Subject: [PATCH 54/66] fix: a message started while the last one's reply was
 reported was mixed up with it

---
 milter/server/milter-server-context.c | 89 ++++++++++++++++-----------
 1 file changed, 53 insertions(+), 36 deletions(-)

diff --git a/milter/server/milter-server-context.c b/milter/server/milter-server-context.c
index 49566b2..b134fa8 100644
--- a/milter/server/milter-server-context.c
+++ b/milter/server/milter-server-context.c
@@ -106,6 +106,7 @@ struct _MilterServerContextPrivate
     GList *body_response_queue;
     guint process_body_count;
     gboolean sent_end_of_message;
+    gboolean message_replied;
     gboolean waiting_reply;
 
     GTimer *elapsed;
@@ -480,6 +481,7 @@ milter_server_context_init (MilterServerContext *context)
     priv->body_response_queue = NULL;
     priv->process_body_count = 0;
     priv->sent_end_of_message = FALSE;
+    priv->message_replied = FALSE;
 
     priv->timeout_id = 0;
     priv->connection_timeout = MILTER_SERVER_CONTEXT_DEFAULT_CONNECTION_TIMEOUT;
@@ -1118,9 +1120,11 @@ static void
 emit_message_processed_signal (MilterServerContext *context)
 {
     MilterServerContextPrivate *priv;
+    MilterMessageResult *message_result;
     MilterState next_state = MILTER_STATE_INVALID;
 
     priv = MILTER_SERVER_CONTEXT_GET_PRIVATE(context);
+    priv->message_replied = FALSE;
     if (!priv->message_result)
         return;
 
@@ -1156,9 +1160,20 @@ emit_message_processed_signal (MilterServerContext *context)
     milter_message_result_stop(priv->message_result);
     milter_message_result_set_elapsed_time(priv->message_result,
                                            g_timer_elapsed(priv->elapsed, NULL));
-    g_signal_emit_by_name(context, "message-processed", priv->message_result);
-    g_object_unref(priv->message_result);
-    priv->message_result = NULL;
+    message_result = g_object_ref(priv->message_result);
+    g_signal_emit_by_name(context, "message-processed", message_result);
+    if (priv->message_result == message_result)
+        dispose_message_result(priv);
+    g_object_unref(message_result);
+}
+
+/* The next message may be started while the reply for the message is
+ * reported. So the message must be remembered as replied before that. */
+static void
+finish_replied_message (MilterServerContext *context)
+{
+    if (MILTER_SERVER_CONTEXT_GET_PRIVATE(context)->message_replied)
+        emit_message_processed_signal(context);
 }
 
 gboolean
@@ -1718,12 +1733,11 @@ stop_on_state (MilterServerContext *context, MilterServerContextState state)
     priv->status = MILTER_STATUS_STOP;
     set_state_without_reply(context, state);
 
+    priv->message_replied =
+        (MILTER_SERVER_CONTEXT_STATE_ENVELOPE_FROM <= priv->state &&
+         priv->state <= MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE);
     g_signal_emit_by_name(context, "stopped");
-
-    if (MILTER_SERVER_CONTEXT_STATE_ENVELOPE_FROM <= priv->state &&
-        priv->state <= MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE) {
-        emit_message_processed_signal(context);
-    }
+    finish_replied_message(context);
 }
 
 gboolean
@@ -1907,6 +1921,7 @@ reset_message_status (MilterServerContextPrivate *priv)
     }
     priv->process_body_count = 0;
     priv->sent_end_of_message = FALSE;
+    priv->message_replied = FALSE;
     g_string_truncate(priv->body, 0);
 }
 
@@ -1938,6 +1953,7 @@ milter_server_context_envelope_from (MilterServerContext *context,
     const gchar *name = NULL;
 
     priv = MILTER_SERVER_CONTEXT_GET_PRIVATE(context);
+    finish_replied_message(context);
     priv->status = MILTER_STATUS_NOT_CHANGE;
 
     if (milter_need_debug_log()) {
@@ -2698,9 +2714,10 @@ cb_decoder_continue (MilterReplyDecoder *decoder, gpointer user_data)
         milter_debug("[%u] [server][timer][stop] [%s] <%g>",
                      tag, name, g_timer_elapsed(priv->elapsed, NULL));
         if (check_reply_after_quit(context, priv->state, "continue")) {
+            priv->message_replied =
+                (priv->state == MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE);
             g_signal_emit_by_name(context, "continue");
-            if (priv->state == MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE)
-                emit_message_processed_signal(context);
+            finish_replied_message(context);
         }
         break;
       default:
@@ -2785,14 +2802,14 @@ cb_decoder_reply_code (MilterReplyDecoder *decoder,
         milter_debug("[%u] [server][timer][stop] [%s] %g",
                      tag, name, g_timer_elapsed(priv->elapsed, NULL));
         if (check_reply_after_quit(context, state, "reply-code")) {
+            priv->message_replied =
+                (MILTER_SERVER_CONTEXT_STATE_ENVELOPE_FROM <= state &&
+                 state <= MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE &&
+                 state != MILTER_SERVER_CONTEXT_STATE_ENVELOPE_RECIPIENT &&
+                 state != MILTER_SERVER_CONTEXT_STATE_UNKNOWN);
             g_signal_emit_by_name(context, "reply-code",
                                   code, extended_code, message);
-            if (MILTER_SERVER_CONTEXT_STATE_ENVELOPE_FROM <= priv->state &&
-                priv->state <= MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE &&
-                priv->state != MILTER_SERVER_CONTEXT_STATE_ENVELOPE_RECIPIENT &&
-                priv->state != MILTER_SERVER_CONTEXT_STATE_UNKNOWN) {
-                emit_message_processed_signal(context);
-            }
+            finish_replied_message(context);
         }
         break;
     default:
@@ -2856,13 +2873,13 @@ cb_decoder_temporary_failure (MilterReplyDecoder *decoder, gpointer user_data)
     if (priv->state == MILTER_SERVER_CONTEXT_STATE_BODY)
         clear_process_body_count(context);
 
+    priv->message_replied =
+        (MILTER_SERVER_CONTEXT_STATE_ENVELOPE_FROM <= priv->state &&
+         priv->state <= MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE &&
+         priv->state != MILTER_SERVER_CONTEXT_STATE_ENVELOPE_RECIPIENT &&
+         priv->state != MILTER_SERVER_CONTEXT_STATE_UNKNOWN);
     g_signal_emit_by_name(context, "temporary-failure");
-    if (MILTER_SERVER_CONTEXT_STATE_ENVELOPE_FROM <= priv->state &&
-        priv->state <= MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE &&
-        priv->state != MILTER_SERVER_CONTEXT_STATE_ENVELOPE_RECIPIENT &&
-        priv->state != MILTER_SERVER_CONTEXT_STATE_UNKNOWN) {
-        emit_message_processed_signal(context);
-    }
+    finish_replied_message(context);
 
 }
 
@@ -2918,13 +2935,13 @@ cb_decoder_reject (MilterReplyDecoder *decoder, gpointer user_data)
     if (priv->state == MILTER_SERVER_CONTEXT_STATE_BODY)
         clear_process_body_count(context);
 
+    priv->message_replied =
+        (MILTER_SERVER_CONTEXT_STATE_ENVELOPE_FROM <= priv->state &&
+         priv->state <= MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE &&
+         priv->state != MILTER_SERVER_CONTEXT_STATE_ENVELOPE_RECIPIENT &&
+         priv->state != MILTER_SERVER_CONTEXT_STATE_UNKNOWN);
     g_signal_emit_by_name(context, "reject");
-    if (MILTER_SERVER_CONTEXT_STATE_ENVELOPE_FROM <= priv->state &&
-        priv->state <= MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE &&
-        priv->state != MILTER_SERVER_CONTEXT_STATE_ENVELOPE_RECIPIENT &&
-        priv->state != MILTER_SERVER_CONTEXT_STATE_UNKNOWN) {
-        emit_message_processed_signal(context);
-    }
+    finish_replied_message(context);
 
 }
 
@@ -2969,11 +2986,11 @@ cb_decoder_accept (MilterReplyDecoder *decoder, gpointer user_data)
     if (priv->state == MILTER_SERVER_CONTEXT_STATE_BODY)
         clear_process_body_count(context);
 
+    priv->message_replied =
+        (MILTER_SERVER_CONTEXT_STATE_ENVELOPE_FROM <= priv->state &&
+         priv->state <= MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE);
     g_signal_emit_by_name(context, "accept");
-    if (MILTER_SERVER_CONTEXT_STATE_ENVELOPE_FROM <= priv->state &&
-        priv->state <= MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE) {
-        emit_message_processed_signal(context);
-    }
+    finish_replied_message(context);
 
 }
 
@@ -3017,11 +3034,11 @@ cb_decoder_discard (MilterReplyDecoder *decoder, gpointer user_data)
     if (priv->state == MILTER_SERVER_CONTEXT_STATE_BODY)
         clear_process_body_count(context);
 
+    priv->message_replied =
+        (MILTER_SERVER_CONTEXT_STATE_ENVELOPE_FROM <= priv->state &&
+         priv->state <= MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE);
     g_signal_emit_by_name(context, "discard");
-    if (MILTER_SERVER_CONTEXT_STATE_ENVELOPE_FROM <= priv->state &&
-        priv->state <= MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE) {
-        emit_message_processed_signal(context);
-    }
+    finish_replied_message(context);
 
 }
 
-- 
2.43.0


From 2a98187cb50d96afd9bddf0e67f85b8a68880690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:18 +0000
Subject: [PATCH 55/66] fix: the headers of a processed message were reported
 in a wrong order

---
 milter/server/milter-server-context.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/milter/server/milter-server-context.c b/milter/server/milter-server-context.c
index b134fa8..0eeafb5 100644
--- a/milter/server/milter-server-context.c
+++ b/milter/server/milter-server-context.c
@@ -2171,7 +2171,7 @@ milter_server_context_header (MilterServerContext *context,
 
     ensure_message_result(priv);
     headers = milter_message_result_get_headers(priv->message_result);
-    milter_headers_add_header(headers, header_name, header_value);
+    milter_headers_append_header(headers, header_name, header_value);
     milter_message_result_set_state(priv->message_result, MILTER_STATE_HEADER);
 
     milter_protocol_agent_set_macro_context(MILTER_PROTOCOL_AGENT(context),
-- 
2.43.0


From 5df757f682053ee7d7950d23483b998677df2cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:31 +0000
Subject: [PATCH 56/66] fix: an answer to an unknown command was taken for the
 status of the message

---
 milter/server/milter-server-context.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/milter/server/milter-server-context.c b/milter/server/milter-server-context.c
index 0eeafb5..61032a5 100644
--- a/milter/server/milter-server-context.c
+++ b/milter/server/milter-server-context.c
@@ -2773,7 +2773,7 @@ cb_decoder_reply_code (MilterReplyDecoder *decoder,
             priv->message_result, priv->current_recipient);
         g_free(priv->current_recipient);
         priv->current_recipient = NULL;
-    } else {
+    } else if (priv->state != MILTER_SERVER_CONTEXT_STATE_UNKNOWN) {
         priv->status = status;
     }
 
@@ -2841,7 +2841,7 @@ cb_decoder_temporary_failure (MilterReplyDecoder *decoder, gpointer user_data)
             priv->message_result, priv->current_recipient);
         g_free(priv->current_recipient);
         priv->current_recipient = NULL;
-    } else {
+    } else if (priv->state != MILTER_SERVER_CONTEXT_STATE_UNKNOWN) {
         priv->status = MILTER_STATUS_TEMPORARY_FAILURE;
     }
 
@@ -2903,7 +2903,7 @@ cb_decoder_reject (MilterReplyDecoder *decoder, gpointer user_data)
                                                priv->current_recipient);
         g_free(priv->current_recipient);
         priv->current_recipient = NULL;
-    } else {
+    } else if (priv->state != MILTER_SERVER_CONTEXT_STATE_UNKNOWN) {
         priv->status = MILTER_STATUS_REJECT;
     }
 
-- 
2.43.0


From 719d13c6aaf5aea1ad874ba6016b2bfef36a3cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:45 +0000
Subject: [PATCH 57/66] fix: a message started without sending anything was
 reported with a wrong status when aborted

---
 milter/server/milter-server-context.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/milter/server/milter-server-context.c b/milter/server/milter-server-context.c
index 61032a5..cfd866d 100644
--- a/milter/server/milter-server-context.c
+++ b/milter/server/milter-server-context.c
@@ -1447,7 +1447,9 @@ process_next_state (MilterServerContext *context,
         milter_server_context_set_state(context, next_state);
         break;
     case MILTER_SERVER_CONTEXT_STATE_ABORT:
-        milter_server_context_set_state(context, next_state);
+        /* The next message may be started without sending anything. */
+        if (!priv->message_result)
+            milter_server_context_set_state(context, next_state);
         break;
     default:
         milter_server_context_set_state(context, next_state);
-- 
2.43.0


From a6387f3a3a550b78965fec8ca28874808d18fec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:36 +0000
Subject: [PATCH 58/66] fix: memory leaked for the unanswered steps of a closed
 milter when logging everything

---
 milter/server/milter-server-context.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/milter/server/milter-server-context.c b/milter/server/milter-server-context.c
index cfd866d..dfb0c56 100644
--- a/milter/server/milter-server-context.c
+++ b/milter/server/milter-server-context.c
@@ -595,6 +595,7 @@ dispose_next_states (MilterServerContext *context)
                     g_string_append(unflushed_states, ",");
                 }
                 g_string_append(unflushed_states, state_name);
+                g_free(state_name);
             }
             milter_debug("[%u] [server][dispose][next-states][unflushed] [%s] "
                          "<%s>",
-- 
2.43.0


From 0198249f17da005f2cd5dac7a7fbf97d794eb078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:58 +0000
Subject: [PATCH 59/66] fix: xxfi_negotiate() was called with a wrong context

---
 libmilter/libmilter-compatible.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmilter/libmilter-compatible.c b/libmilter/libmilter-compatible.c
index 577185a..6dabc75 100644
--- a/libmilter/libmilter-compatible.c
+++ b/libmilter/libmilter-compatible.c
@@ -263,7 +263,7 @@ smfi_register (struct smfiDesc description)
 
 static MilterStatus
 cb_negotiate (MilterClientContext *context, MilterOption *option,
-              gpointer user_data)
+              MilterMacrosRequests *macros_requests, gpointer user_data)
 {
     SmfiContext *smfi_context = user_data;
     sfsistat status;
-- 
2.43.0


From 4854a725355cea943f28cb3a36e421854213921f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:18 +0000
Subject: [PATCH 60/66] fix: smfi_setsymlist() had no effect

---
 libmilter/libmilter-compatible.c | 52 +++++++++++++++++++++++++++-----
 1 file changed, 44 insertions(+), 8 deletions(-)

diff --git a/libmilter/libmilter-compatible.c b/libmilter/libmilter-compatible.c
index 6dabc75..91c58f2 100644
--- a/libmilter/libmilter-compatible.c
+++ b/libmilter/libmilter-compatible.c
@@ -50,6 +50,7 @@ struct _SmfiContextPrivate
 {
     MilterClientContext *client_context;
     gpointer private_data;
+    MilterMacrosRequests *macros_requests;
 };
 
 enum
@@ -103,6 +104,7 @@ smfi_context_init (SmfiContext *context)
     priv = SMFI_CONTEXT_GET_PRIVATE(context);
     priv->client_context = NULL;
     priv->private_data = NULL;
+    priv->macros_requests = NULL;
 }
 
 static void
@@ -266,6 +268,7 @@ cb_negotiate (MilterClientContext *context, MilterOption *option,
               MilterMacrosRequests *macros_requests, gpointer user_data)
 {
     SmfiContext *smfi_context = user_data;
+    SmfiContextPrivate *priv;
     sfsistat status;
     gulong action, step, preserve1 = 0, preserve2 = 0;
     gulong action_out, step_out, preserve1_out = 0, preserve2_out = 0;
@@ -275,11 +278,14 @@ cb_negotiate (MilterClientContext *context, MilterOption *option,
 
     action = action_out = milter_option_get_action(option);
     step = step_out = milter_option_get_step(option);
+    priv = SMFI_CONTEXT_GET_PRIVATE(smfi_context);
+    priv->macros_requests = macros_requests;
     status = filter_description->xxfi_negotiate(smfi_context,
                                                 action, step,
                                                 preserve1, preserve2,
                                                 &action_out, &step_out,
                                                 &preserve1_out, &preserve2_out);
+    priv->macros_requests = NULL;
     if (status == SMFIS_CONTINUE) {
         milter_option_set_action(option, action_out);
         milter_option_set_step(option, step_out);
@@ -1030,26 +1036,56 @@ smfi_getpriv (SMFICTX *context)
     return SMFI_CONTEXT_GET_PRIVATE(context)->private_data;
 }
 
+static gboolean
+convert_macro_state (int state, MilterCommand *command)
+{
+    switch (state) {
+    case SMFIM_CONNECT:
+        *command = MILTER_COMMAND_CONNECT;
+        return TRUE;
+    case SMFIM_HELO:
+        *command = MILTER_COMMAND_HELO;
+        return TRUE;
+    case SMFIM_ENVFROM:
+        *command = MILTER_COMMAND_ENVELOPE_FROM;
+        return TRUE;
+    case SMFIM_ENVRCPT:
+        *command = MILTER_COMMAND_ENVELOPE_RECIPIENT;
+        return TRUE;
+    case SMFIM_DATA:
+        *command = MILTER_COMMAND_DATA;
+        return TRUE;
+    case SMFIM_EOM:
+        *command = MILTER_COMMAND_END_OF_MESSAGE;
+        return TRUE;
+    case SMFIM_EOH:
+        *command = MILTER_COMMAND_END_OF_HEADER;
+        return TRUE;
+    default:
+        return FALSE;
+    }
+}
+
 int
 smfi_setsymlist (SMFICTX *context, int state, char *macros)
 {
     SmfiContextPrivate *priv;
-    MilterProtocolAgent *agent;
-    MilterMacrosRequests *macros_requests;
+    MilterCommand command;
     gchar **macro_array;
 
     priv = SMFI_CONTEXT_GET_PRIVATE(context);
     if (!priv->client_context)
         return MI_FAILURE;
 
-    agent = MILTER_PROTOCOL_AGENT(priv->client_context);
-    macros_requests = milter_protocol_agent_get_macros_requests(agent);
-    if (!macros_requests)
-        macros_requests = milter_macros_requests_new();
+    if (!priv->macros_requests)
+        return MI_FAILURE;
+
+    if (!convert_macro_state(state, &command))
+        return MI_FAILURE;
 
     macro_array = g_strsplit(macros, " ", -1);
-    milter_macros_requests_set_symbols_string_array(macros_requests,
-                                                    state,
+    milter_macros_requests_set_symbols_string_array(priv->macros_requests,
+                                                    command,
                                                     (const gchar**)macro_array);
     g_strfreev(macro_array);
 
-- 
2.43.0


From 8db5979730b434917eb0cbabb6f3341fe091dc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:18 +0000
Subject: [PATCH 61/66] fix: the last chunk of the body was lost for filters
 without xxfi_eom()

---
 libmilter/libmilter-compatible.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libmilter/libmilter-compatible.c b/libmilter/libmilter-compatible.c
index 91c58f2..3ba8453 100644
--- a/libmilter/libmilter-compatible.c
+++ b/libmilter/libmilter-compatible.c
@@ -512,11 +512,16 @@ smfi_context_attach_to_client_context (SmfiContext *context)
     CONNECT(header, header);
     CONNECT(end_of_header, eoh);
     CONNECT(body, body);
-    CONNECT(end_of_message, eom);
     CONNECT(abort, abort);
 
 #undef CONNECT
 
+    /* the end of message may carry the last chunk of the body. */
+    if (filter_description->xxfi_eom || filter_description->xxfi_body)
+        g_signal_connect(client_context, "end-of-message",
+                         G_CALLBACK(cb_end_of_message),
+                         context);
+
     g_signal_connect(client_context, "finished",
                      G_CALLBACK(cb_finished), context);
 }
-- 
2.43.0


From 75cb8195f90ebd95f644355c16a1e9cc8436f565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:49 +0000
Subject: [PATCH 62/66] fix: a milter that is not running was connected to
 twice after it was launched

---
 milter/manager/milter-manager-children.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index 4f71384..21876f4 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -3492,12 +3492,11 @@ milter_manager_children_negotiate (MilterManagerChildren *children,
     for (node = copied_milters; node; node = g_list_next(node)) {
         MilterManagerChild *child = MILTER_MANAGER_CHILD(node->data);
 
+        /* A connection that can't be established at once is
+         * already registered to be retried. */
         if (!child_establish_connection(child, option, children, FALSE)) {
-            if (privilege &&
-                milter_manager_children_start_child(children, child)) {
-                prepare_retry_establish_connection(child, option, children,
-                                                   FALSE);
-            }
+            if (privilege)
+                milter_manager_children_start_child(children, child);
         }
     }
     g_list_free(copied_milters);
-- 
2.43.0


From f4f5d0fc472c78f861e6de3a5d6625c7e90cadf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:31 +0000
Subject: [PATCH 63/66] fix: the command line of a launched milter was leaked

---
 milter/manager/milter-manager-children.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index 21876f4..8d5e648 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -2916,6 +2916,7 @@ milter_manager_children_start_child (MilterManagerChildren *children,
                                                         &packet, &packet_size,
                                                         command,
                                                         user_name);
+    g_free(command);
     milter_writer_write(priv->launcher_writer, packet, packet_size, &error);
     g_object_unref(encoder);
 
-- 
2.43.0


From 152ef1d837d059c5e798525a09d1fdf3c96352b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:16 +0000
Subject: [PATCH 64/66] fix: a milter whose user could not be changed to was
 run as root

---
 milter/manager/milter-manager-process-launcher.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/milter/manager/milter-manager-process-launcher.c b/milter/manager/milter-manager-process-launcher.c
index cb8f746..6ec325a 100644
--- a/milter/manager/milter-manager-process-launcher.c
+++ b/milter/manager/milter-manager-process-launcher.c
@@ -24,6 +24,7 @@
 #include <sys/types.h>
 #include <sys/wait.h>
 #include <unistd.h>
+#include <stdlib.h>
 #include <string.h>
 #include <pwd.h>
 #include <grp.h>
@@ -249,6 +250,14 @@ is_already_launched (MilterManagerProcessLauncher *launcher,
     return TRUE;
 }
 
+static void
+give_up_changing_user (struct passwd *password)
+{
+    /* The milter must not run as another user than the specified one. */
+    if (geteuid() != password->pw_uid)
+        _exit(EXIT_FAILURE);
+}
+
 static void
 setup_child (gpointer user_data)
 {
@@ -263,6 +272,7 @@ setup_child (gpointer user_data)
         milter_error("[launcher][error][child][authority][group] "
                      "failed to change GID: <%d>: %s",
                      password->pw_gid, g_strerror(errno));
+        give_up_changing_user(password);
         return;
     } else {
         milter_debug("[launcher][child][authority][group] <%d>",
@@ -273,6 +283,7 @@ setup_child (gpointer user_data)
         milter_error("[launcher][error][child][authority][groups] "
                      "failed to initialize group access: <%s>:<%d>: %s",
                      password->pw_name, password->pw_gid, g_strerror(errno));
+        give_up_changing_user(password);
         return;
     } else {
         milter_debug("[launcher][child][authority][groups] <%s>:<%d>",
@@ -283,6 +294,7 @@ setup_child (gpointer user_data)
         milter_error("[launcher][error][child][authority][user] "
                      "failed to change UID: <%d>: %s",
                      password->pw_uid, g_strerror(errno));
+        give_up_changing_user(password);
         return;
     } else {
         milter_debug("[launcher][child][authority][user] <%d>",
-- 
2.43.0


From 88eca2b17a67c9d6cd1a062d49b40397db2ac242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:16 +0000
Subject: [PATCH 65/66] fix: a little memory was leaked whenever a launched
 milter ended

---
 milter/manager/milter-manager-process-launcher.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/milter/manager/milter-manager-process-launcher.c b/milter/manager/milter-manager-process-launcher.c
index 6ec325a..543c031 100644
--- a/milter/manager/milter-manager-process-launcher.c
+++ b/milter/manager/milter-manager-process-launcher.c
@@ -226,7 +226,7 @@ child_watch_func (GPid pid, gint status, gpointer user_data)
                     status, data->command_line);
     }
     process_data_free(process->data);
-    priv->processes = g_list_remove_link(priv->processes, process);
+    priv->processes = g_list_delete_link(priv->processes, process);
 }
 
 static gboolean
-- 
2.43.0


From 9782aaf1ea8d21ee66df302d1d08609a9188212e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:39 +0000
Subject: [PATCH 66/66] fix: freed macros were read when logging the requested
 macros of a milter

---
 milter/server/milter-server-context.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/milter/server/milter-server-context.c b/milter/server/milter-server-context.c
index dfb0c56..c719c22 100644
--- a/milter/server/milter-server-context.c
+++ b/milter/server/milter-server-context.c
@@ -1094,8 +1094,6 @@ prepend_macro (MilterServerContext *context, GString *packed_packet,
                                                &packet, &packet_size,
                                                command,
                                                target_macros);
-    if (filtered_macros)
-        g_hash_table_unref(filtered_macros);
 
     if (milter_need_debug_log()) {
         gchar *command_name;
@@ -1114,6 +1112,9 @@ prepend_macro (MilterServerContext *context, GString *packed_packet,
         g_free(inspected_macros);
     }
 
+    if (filtered_macros)
+        g_hash_table_unref(filtered_macros);
+
     g_string_prepend_len(packed_packet, packet, packet_size);
 }
 
-- 
2.43.0

