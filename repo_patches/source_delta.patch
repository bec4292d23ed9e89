From 197184d8b4c19042cfa35f86f8d2ce800ef66d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:07 +0000
Subject: [PATCH 01/56] fix: base64 decoder accepts '=' in the wrong place and
 returns uninitialised data

---
 src/crypto.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/crypto.c b/src/crypto.c
index 779263f..2a6ec07 100644
--- a/src/crypto.c
+++ b/src/crypto.c
@@ -376,6 +376,9 @@ static void base64_decode(xmpp_ctx_t *ctx,
         }
         if (hextet > 64)
             goto _base64_decode_error;
+        /* only the last quartet may contain padding */
+        if (i != len && (dlen % 3 == 0 || i != len - 4))
+            goto _base64_decode_error;
         /* handle the remainder */
         switch (dlen % 3) {
         case 0:
-- 
2.43.0


From 400cb8be937b6cb47000c29ec661938c874fdef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:41 +0000
Subject: [PATCH 02/56] fix: SRV target compressed to the root keeps a trailing
 dot

---
 src/resolver.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/resolver.c b/src/resolver.c
index 028320a..d771a4d 100644
--- a/src/resolver.c
+++ b/src/resolver.c
@@ -359,6 +359,10 @@ static unsigned message_name_get(const unsigned char *buf,
                 name_max > name_len ? name_max - name_len : 0);
             if (rc == 0)
                 return 0;
+            /* Pointer to the root, overwrite leading '.' */
+            if (name != NULL && name_len > 0 && name_len < name_max &&
+                name[name_len] == '\0')
+                name[name_len - 1] = '\0';
             /* Pointer is always the last. */
             break;
 
-- 
2.43.0


From 710b2892647c31e8c1ac05f2413c76fb5120fb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:41 +0000
Subject: [PATCH 03/56] fix: SRV decoder discards responses whose last record
 has short rdata

---
 src/resolver.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/resolver.c b/src/resolver.c
index d771a4d..6ee3b2f 100644
--- a/src/resolver.c
+++ b/src/resolver.c
@@ -456,12 +456,13 @@ static int resolver_raw_srv_lookup_buf(xmpp_ctx_t *ctx,
         if (name_len == 0)
             return XMPP_DOMAIN_NOT_FOUND;
         j += name_len;
-        BUF_OVERFLOW_CHECK(j + 16, len);
+        BUF_OVERFLOW_CHECK(j + 9, len);
         type = xmpp_ntohs_ptr(&buf[j]);
         class = xmpp_ntohs_ptr(&buf[j + 2]);
         rdlength = xmpp_ntohs_ptr(&buf[j + 8]);
         j += 10;
         if (type == MESSAGE_T_SRV && class == MESSAGE_C_IN) {
+            BUF_OVERFLOW_CHECK(j + 6, len);
             rr = resolver_srv_rr_new(ctx, NULL, 0, 0, 0);
             if (rr) {
                 rr->next = *srv_rr_list;
-- 
2.43.0


From 5ce5120f439d686f827899556ada8d55033c217c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:35 +0000
Subject: [PATCH 04/56] fix: one DISCONNECT per connection: ignore further
 input and teardown requests once disconnected

---
 src/conn.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/conn.c b/src/conn.c
index f586a59..1422962 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -917,6 +917,10 @@ void conn_disconnect_clean(xmpp_conn_t *conn)
  */
 void conn_disconnect(xmpp_conn_t *conn)
 {
+    /* the connection is already down and the user has been told */
+    if (conn->state == XMPP_STATE_DISCONNECTED)
+        return;
+
     strophe_debug(conn->ctx, "xmpp", "Closing socket.");
     conn->state = XMPP_STATE_DISCONNECTED;
     conn->stream_negotiation_completed = 0;
@@ -927,6 +931,7 @@ void conn_disconnect(xmpp_conn_t *conn)
     }
     if (conn->sock != INVALID_SOCKET)
         sock_close(conn->sock);
+    conn->sock = INVALID_SOCKET;
     _reset_sm_state_for_reconnect(conn);
 
     /* fire off connection handler */
@@ -1978,6 +1983,10 @@ static void _handle_stream_start(char *name, char **attrs, void *userdata)
     char *id;
     int failed = 0;
 
+    /* disconnected while the rest of the input is being parsed */
+    if (conn->state != XMPP_STATE_CONNECTED)
+        return;
+
     if (conn->stream_id)
         strophe_free(conn->ctx, conn->stream_id);
     conn->stream_id = NULL;
@@ -2014,6 +2023,9 @@ static void _handle_stream_end(char *name, void *userdata)
 
     UNUSED(name);
 
+    if (conn->state != XMPP_STATE_CONNECTED)
+        return;
+
     /* stream is over */
     strophe_debug(conn->ctx, "xmpp", "RECV: </stream:stream>");
     /* the session has been terminated properly, i.e. it can't be resumed */
@@ -2028,12 +2040,17 @@ static void _handle_stream_stanza(xmpp_stanza_t *stanza, void *userdata)
     char *buf;
     size_t len;
 
+    if (conn->state != XMPP_STATE_CONNECTED)
+        return;
+
     if (xmpp_stanza_to_text(stanza, &buf, &len) == 0) {
         strophe_debug(conn->ctx, "xmpp", "RECV: %s", buf);
         strophe_free(conn->ctx, buf);
     }
 
     handler_fire_stanza(conn, stanza);
+    if (conn->state != XMPP_STATE_CONNECTED)
+        return;
     if (conn->sm_state->sm_enabled)
         _conn_sm_handle_stanza(conn, stanza);
 }
-- 
2.43.0


From e9931a393a54a21c1682c5e2b39369c291037c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:35 +0000
Subject: [PATCH 05/56] fix: tear the connection down after a parse error
 instead of keeping a dead stream

---
 src/event.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/event.c b/src/event.c
index 56d0a24..68db0ea 100644
--- a/src/event.c
+++ b/src/event.c
@@ -317,6 +317,11 @@ next_item:
                         strophe_debug(ctx, "xmpp", "parse error [%s]", buf);
                         xmpp_send_error(conn, XMPP_SE_INVALID_XML,
                                         "parse error");
+                        send_raw_string(conn, "</stream:stream>");
+                        /* nothing can be parsed from now on, the connection is
+                         * torn down once the error has been sent */
+                        if (!conn->error)
+                            conn->error = ECONNABORTED;
                     }
                 } else {
                     int err = intf->get_error(intf);
-- 
2.43.0


From db6e65ee07fb6aa1c7025cfc4753f1d0622358a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:53 +0000
Subject: [PATCH 06/56] fix: component connections and detached SM states
 dereference a NULL sm_state

---
 src/conn.c | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index 1422962..df02520 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -81,6 +81,7 @@
 
 static int _is_connected(xmpp_conn_t *conn, xmpp_send_queue_owner_t owner);
 static int _disconnect_cleanup(xmpp_conn_t *conn, void *userdata);
+static int _conn_sm_state_init(xmpp_conn_t *conn);
 static void _reset_sm_state_for_reconnect(xmpp_conn_t *conn);
 static char *_conn_build_stream_tag(xmpp_conn_t *conn,
                                     char **attributes,
@@ -689,13 +690,8 @@ int xmpp_connect_client(xmpp_conn_t *conn,
     if (!domain)
         return XMPP_EMEM;
 
-    if (!conn->sm_state) {
-        conn->sm_state = strophe_alloc(conn->ctx, sizeof(*conn->sm_state));
-        if (!conn->sm_state)
-            goto err_mem;
-        memset(conn->sm_state, 0, sizeof(*conn->sm_state));
-        conn->sm_state->ctx = conn->ctx;
-    }
+    if (_conn_sm_state_init(conn) != XMPP_EOK)
+        goto err_mem;
 
     if (altdomain != NULL)
         strophe_debug(conn->ctx, "conn", "Connecting via altdomain.");
@@ -766,6 +762,9 @@ int xmpp_connect_component(xmpp_conn_t *conn,
         return XMPP_EINT;
     }
 
+    if (_conn_sm_state_init(conn) != XMPP_EOK)
+        return XMPP_EMEM;
+
     port = port ? port : _conn_default_port(conn, XMPP_COMPONENT);
     if (conn->xsock)
         sock_free(conn->xsock);
@@ -1488,7 +1487,7 @@ static int sm_store_u32(unsigned char **next_,
 
 static size_t sm_state_serialize(xmpp_conn_t *conn, unsigned char **buf)
 {
-    if (!conn->sm_state->sm_support || !conn->sm_state->sm_enabled ||
+    if (!conn->sm_state || !conn->sm_state->sm_support || !conn->sm_state->sm_enabled ||
         !conn->sm_state->can_resume) {
         *buf = NULL;
         return 0;
@@ -1824,7 +1823,8 @@ char *xmpp_conn_send_queue_drop_element(xmpp_conn_t *conn,
     if (t->next && t->next->userdata == t) {
         strophe_free(conn->ctx, _drop_send_queue_element(conn, t->next));
         /* reset the flag, so we restart to send `<r>` stanzas */
-        conn->sm_state->r_sent = 0;
+        if (conn->sm_state)
+            conn->sm_state->r_sent = 0;
     }
     /* Finally drop the element */
     char *r = _drop_send_queue_element(conn, t);
@@ -2187,6 +2187,21 @@ static void _conn_reset(xmpp_conn_t *conn)
     handler_system_delete_all(conn);
 }
 
+/* every connected connection has a Stream Management state */
+static int _conn_sm_state_init(xmpp_conn_t *conn)
+{
+    if (conn->sm_state)
+        return XMPP_EOK;
+
+    conn->sm_state = strophe_alloc(conn->ctx, sizeof(*conn->sm_state));
+    if (!conn->sm_state)
+        return XMPP_EMEM;
+    memset(conn->sm_state, 0, sizeof(*conn->sm_state));
+    conn->sm_state->ctx = conn->ctx;
+
+    return XMPP_EOK;
+}
+
 static int _conn_connect(xmpp_conn_t *conn,
                          const char *domain,
                          xmpp_conn_type_t type,
-- 
2.43.0


From 2b794b52f47507c37c32214db96610b2010662df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:54 +0000
Subject: [PATCH 07/56] fix: offers of the previous connection (SASL
 mechanisms, compression) leak into the next one

---
 src/conn.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/conn.c b/src/conn.c
index df02520..26b05a7 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -2180,6 +2180,8 @@ static void _conn_reset(xmpp_conn_t *conn)
     conn->error = 0;
 
     conn->tls_support = 0;
+    conn->sasl_support = 0;
+    conn->compression.supported = 0;
 
     conn->bind_required = 0;
     conn->session_required = 0;
-- 
2.43.0


From dcd03b3c668a6e779bd2a82bfa62568dad4fea9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:54 +0000
Subject: [PATCH 08/56] fix: a refused connect replaces the active connection's
 socket state and makes it raw

---
 src/conn.c | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index 26b05a7..7e64788 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -104,6 +104,12 @@ static void _conn_sm_handle_stanza(xmpp_conn_t *const conn,
 static unsigned short _conn_default_port(xmpp_conn_t *conn,
                                          xmpp_conn_type_t type);
 static void _conn_reset(xmpp_conn_t *conn);
+static int _connect_client(xmpp_conn_t *conn,
+                           const char *altdomain,
+                           unsigned short altport,
+                           xmpp_conn_handler callback,
+                           void *userdata,
+                           int is_raw);
 static int _conn_connect(xmpp_conn_t *conn,
                          const char *domain,
                          xmpp_conn_type_t type,
@@ -663,10 +669,26 @@ int xmpp_connect_client(xmpp_conn_t *conn,
                         unsigned short altport,
                         xmpp_conn_handler callback,
                         void *userdata)
+{
+    return _connect_client(conn, altdomain, altport, callback, userdata, 0);
+}
+
+static int _connect_client(xmpp_conn_t *conn,
+                           const char *altdomain,
+                           unsigned short altport,
+                           xmpp_conn_handler callback,
+                           void *userdata,
+                           int is_raw)
 {
     char *domain;
     int rc;
 
+    /* don't touch anything that belongs to an active connection */
+    if (conn->state != XMPP_STATE_DISCONNECTED)
+        return XMPP_EINVOP;
+
+    conn->is_raw = is_raw;
+
     if (!conn->jid && (conn->tls_client_cert || conn->tls_client_key)) {
         if (tls_id_on_xmppaddr_num(conn) != 1) {
             strophe_debug(conn->ctx, "xmpp",
@@ -748,6 +770,11 @@ int xmpp_connect_component(xmpp_conn_t *conn,
                            xmpp_conn_handler callback,
                            void *userdata)
 {
+    if (conn->state != XMPP_STATE_DISCONNECTED)
+        return XMPP_EINVOP;
+
+    conn->is_raw = 0;
+
     /*  The server domain, jid and password MUST be specified. */
     if (!(server && conn->jid && conn->pass))
         return XMPP_EINVOP;
@@ -804,8 +831,7 @@ int xmpp_connect_raw(xmpp_conn_t *conn,
                      xmpp_conn_handler callback,
                      void *userdata)
 {
-    conn->is_raw = 1;
-    return xmpp_connect_client(conn, altdomain, altport, callback, userdata);
+    return _connect_client(conn, altdomain, altport, callback, userdata, 1);
 }
 
 /* Called when tcp connection is established. */
-- 
2.43.0


From adbda7d1f112755068a0448c2a248c7be271ccab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:15 +0000
Subject: [PATCH 09/56] fix: crash on a stream error without children

---
 src/auth.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/auth.c b/src/auth.c
index a1bc3b5..d00bc5d 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -127,13 +127,9 @@ _handle_error(xmpp_conn_t *conn, xmpp_stanza_t *stanza, void *userdata)
     conn->stream_error->type = XMPP_SE_UNDEFINED_CONDITION;
 
     if (conn->stream_error) {
-        child = xmpp_stanza_get_children(stanza);
-        do {
-            const char *ns = NULL;
-
-            if (child) {
-                ns = xmpp_stanza_get_ns(child);
-            }
+        for (child = xmpp_stanza_get_children(stanza); child;
+             child = xmpp_stanza_get_next(child)) {
+            const char *ns = xmpp_stanza_get_ns(child);
 
             if (ns && strcmp(ns, XMPP_NS_STREAMS_IETF) == 0) {
                 name = xmpp_stanza_get_name(child);
@@ -190,7 +186,7 @@ _handle_error(xmpp_conn_t *conn, xmpp_stanza_t *stanza, void *userdata)
                 else if (strcmp(name, "xml-not-well-formed") == 0)
                     conn->stream_error->type = XMPP_SE_XML_NOT_WELL_FORMED;
             }
-        } while ((child = xmpp_stanza_get_next(child)));
+        }
 
         conn->stream_error->stanza = xmpp_stanza_clone(stanza);
     }
-- 
2.43.0


From 905ba54af1e9ab7c8d226438db3fff2f9e64174f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:15 +0000
Subject: [PATCH 10/56] fix: stream error condition not-well-formed (RFC 6120)
 is reported as undefined

---
 src/auth.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/auth.c b/src/auth.c
index d00bc5d..54ef6e2 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -183,7 +183,8 @@ _handle_error(xmpp_conn_t *conn, xmpp_stanza_t *stanza, void *userdata)
                     conn->stream_error->type = XMPP_SE_UNSUPPORTED_STANZA_TYPE;
                 else if (strcmp(name, "unsupported-version") == 0)
                     conn->stream_error->type = XMPP_SE_UNSUPPORTED_VERSION;
-                else if (strcmp(name, "xml-not-well-formed") == 0)
+                else if (strcmp(name, "xml-not-well-formed") == 0 ||
+                         strcmp(name, "not-well-formed") == 0)
                     conn->stream_error->type = XMPP_SE_XML_NOT_WELL_FORMED;
             }
         }
-- 
2.43.0


From cfbb3d564ad3adf18f23fc7423e4107d7abec35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:49 +0000
Subject: [PATCH 11/56] fix: memory leaks in SASL error paths, crash on an
 empty DIGEST-MD5 challenge

---
 src/auth.c   | 56 +++++++++++++++++++++++++++++++++++++++++-----------
 src/common.h |  2 ++
 src/conn.c   |  1 +
 3 files changed, 47 insertions(+), 12 deletions(-)

diff --git a/src/auth.c b/src/auth.c
index 54ef6e2..df7fcd7 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -387,15 +387,21 @@ static int _handle_digestmd5_challenge(xmpp_conn_t *conn,
 
     if (strcmp(name, "challenge") == 0) {
         text = xmpp_stanza_get_text(stanza);
+        if (!text) {
+            strophe_error(conn->ctx, "auth", "Got an empty SASL challenge.");
+            xmpp_disconnect(conn);
+            return 0;
+        }
         response = sasl_digest_md5(conn->ctx, text, conn->jid, conn->pass);
+        strophe_free(conn->ctx, text);
         if (!response) {
             disconnect_mem_error(conn);
             return 0;
         }
-        strophe_free(conn->ctx, text);
 
         auth = xmpp_stanza_new(conn->ctx);
         if (!auth) {
+            strophe_free(conn->ctx, response);
             disconnect_mem_error(conn);
             return 0;
         }
@@ -404,6 +410,8 @@ static int _handle_digestmd5_challenge(xmpp_conn_t *conn,
 
         authdata = xmpp_stanza_new(conn->ctx);
         if (!authdata) {
+            xmpp_stanza_release(auth);
+            strophe_free(conn->ctx, response);
             disconnect_mem_error(conn);
             return 0;
         }
@@ -466,6 +474,23 @@ struct scram_user_data {
     const struct hash_alg *alg;
 };
 
+static void _scram_ctx_free(xmpp_conn_t *conn,
+                            struct scram_user_data *scram_ctx)
+{
+    strophe_free_and_null(conn->ctx, scram_ctx->channel_binding);
+    strophe_free_and_null(conn->ctx, scram_ctx->scram_init);
+    strophe_free(conn->ctx, scram_ctx);
+}
+
+/* release the state of an unfinished SCRAM exchange */
+void auth_scram_reset(xmpp_conn_t *conn)
+{
+    if (conn->scram_ctx) {
+        _scram_ctx_free(conn, conn->scram_ctx);
+        conn->scram_ctx = NULL;
+    }
+}
+
 /* handle the challenge phase of SCRAM-SHA-1 auth */
 static int _handle_scram_challenge(xmpp_conn_t *conn,
                                    xmpp_stanza_t *stanza,
@@ -528,11 +553,10 @@ static int _handle_scram_challenge(xmpp_conn_t *conn,
          * current handler is not removed yet. As result, libstrophe wouldn't
          * handle incoming challenge stanza.
          */
+        conn->scram_ctx = NULL;
         rc = _handle_sasl_result(conn, stanza,
                                  (void *)scram_ctx->alg->scram_name);
-        strophe_free_and_null(conn->ctx, scram_ctx->channel_binding);
-        strophe_free_and_null(conn->ctx, scram_ctx->scram_init);
-        strophe_free(conn->ctx, scram_ctx);
+        _scram_ctx_free(conn, scram_ctx);
     }
 
     return rc;
@@ -542,9 +566,7 @@ err_release_auth:
 err_free_response:
     strophe_free(conn->ctx, response);
 err:
-    strophe_free_and_null(conn->ctx, scram_ctx->channel_binding);
-    strophe_free_and_null(conn->ctx, scram_ctx->scram_init);
-    strophe_free(conn->ctx, scram_ctx);
+    auth_scram_reset(conn);
     disconnect_mem_error(conn);
     return 0;
 }
@@ -799,6 +821,10 @@ static void _auth(xmpp_conn_t *conn)
     } else if (conn->sasl_support & SASL_MASK_SCRAM) {
         size_t n;
         scram_ctx = strophe_alloc(conn->ctx, sizeof(*scram_ctx));
+        if (!scram_ctx) {
+            disconnect_mem_error(conn);
+            return;
+        }
         memset(scram_ctx, 0, sizeof(*scram_ctx));
         for (n = 0; n < scram_algs_num; ++n) {
             if (conn->sasl_support & scram_algs[n]->mask) {
@@ -809,6 +835,7 @@ static void _auth(xmpp_conn_t *conn)
 
         auth = _make_sasl_auth(conn, scram_ctx->alg->scram_name);
         if (!auth) {
+            _scram_ctx_free(conn, scram_ctx);
             disconnect_mem_error(conn);
             return;
         }
@@ -817,7 +844,7 @@ static void _auth(xmpp_conn_t *conn)
         scram_ctx->sasl_plus =
             scram_ctx->alg->mask & SASL_MASK_SCRAM_PLUS ? 1 : 0;
         if (_make_scram_init_msg(scram_ctx)) {
-            strophe_free(conn->ctx, scram_ctx);
+            _scram_ctx_free(conn, scram_ctx);
             xmpp_stanza_release(auth);
             disconnect_mem_error(conn);
             return;
@@ -827,8 +854,7 @@ static void _auth(xmpp_conn_t *conn)
                                  (unsigned char *)scram_ctx->scram_init,
                                  strlen(scram_ctx->scram_init));
         if (!str) {
-            strophe_free(conn->ctx, scram_ctx->scram_init);
-            strophe_free(conn->ctx, scram_ctx);
+            _scram_ctx_free(conn, scram_ctx);
             xmpp_stanza_release(auth);
             disconnect_mem_error(conn);
             return;
@@ -837,8 +863,7 @@ static void _auth(xmpp_conn_t *conn)
         authdata = xmpp_stanza_new(conn->ctx);
         if (!authdata) {
             strophe_free(conn->ctx, str);
-            strophe_free(conn->ctx, scram_ctx->scram_init);
-            strophe_free(conn->ctx, scram_ctx);
+            _scram_ctx_free(conn, scram_ctx);
             xmpp_stanza_release(auth);
             disconnect_mem_error(conn);
             return;
@@ -847,6 +872,7 @@ static void _auth(xmpp_conn_t *conn)
         strophe_free(conn->ctx, str);
         xmpp_stanza_add_child_ex(auth, authdata, 0);
 
+        conn->scram_ctx = scram_ctx;
         handler_add(conn, _handle_scram_challenge, XMPP_NS_SASL, NULL, NULL,
                     (void *)scram_ctx);
 
@@ -876,16 +902,22 @@ static void _auth(xmpp_conn_t *conn)
         }
         authdata = xmpp_stanza_new(conn->ctx);
         if (!authdata) {
+            xmpp_stanza_release(auth);
             disconnect_mem_error(conn);
             return;
         }
         authid = _get_authid(conn);
         if (!authid) {
+            xmpp_stanza_release(authdata);
+            xmpp_stanza_release(auth);
             disconnect_mem_error(conn);
             return;
         }
         str = sasl_plain(conn->ctx, authid, conn->pass);
         if (!str) {
+            strophe_free(conn->ctx, authid);
+            xmpp_stanza_release(authdata);
+            xmpp_stanza_release(auth);
             disconnect_mem_error(conn);
             return;
         }
diff --git a/src/common.h b/src/common.h
index a367367..b8b8dcd 100644
--- a/src/common.h
+++ b/src/common.h
@@ -263,6 +263,7 @@ struct _xmpp_conn_t {
     char *tls_client_cert;
     char *tls_client_key;
     int tls_failed;   /* set when tls fails, so we don't try again */
+    struct scram_user_data *scram_ctx; /* SCRAM exchange in progress */
     int sasl_support; /* if true, field is a bitfield of supported
                          mechanisms */
     int auth_legacy_enabled;
@@ -392,6 +393,7 @@ void auth_handle_open(xmpp_conn_t *conn);
 void auth_handle_component_open(xmpp_conn_t *conn);
 void auth_handle_open_raw(xmpp_conn_t *conn);
 void auth_handle_open_stub(xmpp_conn_t *conn);
+void auth_scram_reset(xmpp_conn_t *conn);
 
 /* queue functions */
 void add_queue_back(xmpp_queue_t *queue, xmpp_send_queue_t *item);
diff --git a/src/conn.c b/src/conn.c
index 7e64788..6246ef0 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -2213,6 +2213,7 @@ static void _conn_reset(xmpp_conn_t *conn)
     conn->session_required = 0;
 
     handler_system_delete_all(conn);
+    auth_scram_reset(conn);
 }
 
 /* every connected connection has a Stream Management state */
-- 
2.43.0


From 3043c2871e54b30609c5621240605b6eb50cde07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:23 +0000
Subject: [PATCH 12/56] fix: assertion failure on SCRAM salts longer than 124
 bytes

---
 src/scram.c | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/scram.c b/src/scram.c
index 35a62db..27f4848 100644
--- a/src/scram.c
+++ b/src/scram.c
@@ -121,12 +121,15 @@ union common_hash_ctx {
     sha512_context sha512;
 };
 
-static void crypto_HMAC(const struct hash_alg *alg,
-                        const uint8_t *key,
-                        size_t key_len,
-                        const uint8_t *text,
-                        size_t len,
-                        uint8_t *digest)
+/* HMAC of the concatenation of text and text2 */
+static void crypto_HMAC2(const struct hash_alg *alg,
+                         const uint8_t *key,
+                         size_t key_len,
+                         const uint8_t *text,
+                         size_t len,
+                         const uint8_t *text2,
+                         size_t len2,
+                         uint8_t *digest)
 {
     uint8_t key_pad[HMAC_BLOCK_SIZE_MAX];
     uint8_t key_ipad[HMAC_BLOCK_SIZE_MAX];
@@ -155,6 +158,8 @@ static void crypto_HMAC(const struct hash_alg *alg,
     alg->init((void *)&ctx);
     alg->update((void *)&ctx, key_ipad, blocksize);
     alg->update((void *)&ctx, text, len);
+    if (len2)
+        alg->update((void *)&ctx, text2, len2);
     alg->final((void *)&ctx, sha_digest);
 
     alg->init((void *)&ctx);
@@ -163,6 +168,16 @@ static void crypto_HMAC(const struct hash_alg *alg,
     alg->final((void *)&ctx, digest);
 }
 
+static void crypto_HMAC(const struct hash_alg *alg,
+                        const uint8_t *key,
+                        size_t key_len,
+                        const uint8_t *text,
+                        size_t len,
+                        uint8_t *digest)
+{
+    crypto_HMAC2(alg, key, key_len, text, len, NULL, 0, digest);
+}
+
 static void SCRAM_Hi(const struct hash_alg *alg,
                      const uint8_t *text,
                      size_t len,
@@ -173,23 +188,17 @@ static void SCRAM_Hi(const struct hash_alg *alg,
 {
     size_t k;
     uint32_t j;
-    uint8_t tmp[128];
+    uint8_t tmp[SCRAM_DIGEST_SIZE];
 
     static uint8_t int1[] = {0x0, 0x0, 0x0, 0x1};
 
-    /* assume salt + INT(1) isn't longer than sizeof(tmp) */
-    assert(salt_len <= sizeof(tmp) - sizeof(int1));
-
     memset(digest, 0, alg->digest_size);
     if (i == 0) {
         return;
     }
 
-    memcpy(tmp, salt, salt_len);
-    memcpy(&tmp[salt_len], int1, sizeof(int1));
-
     /* 'text' for Hi is a 'key' for HMAC */
-    crypto_HMAC(alg, text, len, tmp, salt_len + sizeof(int1), digest);
+    crypto_HMAC2(alg, text, len, salt, salt_len, int1, sizeof(int1), digest);
     memcpy(tmp, digest, alg->digest_size);
 
     for (j = 1; j < i; j++) {
-- 
2.43.0


From 21c73052759aab8f5b17af15e4f831c20a7d86d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:23 +0000
Subject: [PATCH 13/56] fix: SCRAM iteration counts that are not positive
 numbers are used

---
 src/sasl.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sasl.c b/src/sasl.c
index a280a7f..9e7c0d3 100644
--- a/src/sasl.c
+++ b/src/sasl.c
@@ -429,6 +429,11 @@ char *sasl_scram(xmpp_ctx_t *ctx,
         goto out;
     }
     ival = strtol(i, &saveptr, 10);
+    /* RFC 5802: iteration-count is a posit-number */
+    if (*i < '1' || *i > '9' || *saveptr != '\0' || ival > 0x7fffffffL) {
+        strophe_error(ctx, "SASL", "Invalid iteration count \"%s\"", i);
+        goto out_sval;
+    }
 
     /* "c=<channel_binding>," + r + ",p=" + sign_b64 + '\0' */
     response_len = 3 + strlen(channel_binding) + strlen(r) + 3 +
-- 
2.43.0


From 4200de444076b4e260c0f5792b453bdbd1655a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:23 +0000
Subject: [PATCH 14/56] fix: DIGEST-MD5: crash without nonce, qop list echoed,
 escapes in quoted strings, empty charset

---
 src/sasl.c | 66 ++++++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 57 insertions(+), 9 deletions(-)

diff --git a/src/sasl.c b/src/sasl.c
index 9e7c0d3..b47862b 100644
--- a/src/sasl.c
+++ b/src/sasl.c
@@ -80,19 +80,53 @@ static char *_make_string(xmpp_ctx_t *ctx, const char *s, unsigned len)
 /* create a new, null-terminated string quoting another string */
 static char *_make_quoted(xmpp_ctx_t *ctx, const char *s)
 {
-    char *result;
+    char *result, *c;
     size_t len = strlen(s);
 
-    result = strophe_alloc(ctx, len + 3);
+    /* every character may need an escape */
+    result = strophe_alloc(ctx, 2 * len + 3);
     if (result != NULL) {
-        result[0] = '"';
-        memcpy(result + 1, s, len);
-        result[len + 1] = '"';
-        result[len + 2] = '\0';
+        c = result;
+        *c++ = '"';
+        for (; *s != '\0'; s++) {
+            if (*s == '"' || *s == '\\')
+                *c++ = '\\';
+            *c++ = *s;
+        }
+        *c++ = '"';
+        *c = '\0';
     }
     return result;
 }
 
+/* remove the escapes of a quoted string */
+static void _unquote(char *s)
+{
+    char *c = s;
+
+    for (; *s != '\0'; s++) {
+        if (*s == '\\' && s[1] != '\0')
+            s++;
+        *c++ = *s;
+    }
+    *c = '\0';
+}
+
+/* check whether a comma separated list contains a token */
+static int _list_has(const char *list, const char *token)
+{
+    size_t n, len = strlen(token);
+
+    while (*list != '\0') {
+        list += strspn(list, ", \t");
+        n = strcspn(list, ", \t");
+        if (n == len && strncmp(list, token, len) == 0)
+            return 1;
+        list += n;
+    }
+    return 0;
+}
+
 /* split key, value pairs into a hash */
 static hash_t *_parse_digest_challenge(xmpp_ctx_t *ctx, const char *msg)
 {
@@ -129,9 +163,14 @@ static hash_t *_parse_digest_challenge(xmpp_ctx_t *ctx, const char *msg)
             /* if we see quotes, grab the string in between */
             if ((*s == '\'') || (*s == '"')) {
                 t++;
-                while ((*t != *s) && (*t != '\0'))
+                while ((*t != *s) && (*t != '\0')) {
+                    if (*s == '"' && *t == '\\' && t[1] != '\0')
+                        t++;
                     t++;
+                }
                 value = _make_string(ctx, (char *)s + 1, (t - s - 1));
+                if (*s == '"' && value != NULL)
+                    _unquote(value);
                 if (*t == *s) {
                     s = t + 1;
                 } else {
@@ -259,6 +298,12 @@ char *sasl_digest_md5(xmpp_ctx_t *ctx,
         return NULL;
     }
 
+    if (hash_get(table, "nonce") == NULL) {
+        strophe_error(ctx, "SASL", "no nonce in digest challenge");
+        hash_release(table);
+        return NULL;
+    }
+
     node = xmpp_jid_node(ctx, jid);
     domain = xmpp_jid_domain(ctx, jid);
 
@@ -275,7 +320,9 @@ char *sasl_digest_md5(xmpp_ctx_t *ctx,
     xmpp_rand_nonce(ctx->rand, cnonce, sizeof(cnonce));
     hash_add(table, "cnonce", strophe_strdup(ctx, cnonce));
     hash_add(table, "nc", strophe_strdup(ctx, "00000001"));
-    if (hash_get(table, "qop") == NULL)
+    /* the server offers a list, we choose */
+    value = hash_get(table, "qop");
+    if (value == NULL || _list_has(value, "auth"))
         hash_add(table, "qop", strophe_strdup(ctx, "auth"));
     value = strophe_alloc(ctx, 5 + strlen(domain) + 1);
     memcpy(value, "xmpp/", 5);
@@ -359,7 +406,8 @@ char *sasl_digest_md5(xmpp_ctx_t *ctx,
     result = _add_key(ctx, table, "qop", result, 0);
     result = _add_key(ctx, table, "digest-uri", result, 1);
     result = _add_key(ctx, table, "response", result, 0);
-    result = _add_key(ctx, table, "charset", result, 0);
+    if (hash_get(table, "charset") != NULL)
+        result = _add_key(ctx, table, "charset", result, 0);
 
     strophe_free(ctx, node);
     strophe_free(ctx, domain);
-- 
2.43.0


From b541c3573cb58f7dcd6a104b4de50f511d37a17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:23 +0000
Subject: [PATCH 15/56] fix: ',' and '=' in the SCRAM username are not escaped

---
 src/auth.c | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/auth.c b/src/auth.c
index df7fcd7..4878e41 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -571,12 +571,35 @@ err:
     return 0;
 }
 
+/* RFC 5802 saslname: ',' and '=' are sent as "=2C" and "=3D" */
+static char *_make_saslname(xmpp_ctx_t *ctx, const char *name)
+{
+    char *result, *c;
+
+    result = strophe_alloc(ctx, 3 * strlen(name) + 1);
+    if (!result)
+        return NULL;
+
+    for (c = result; *name; name++) {
+        if (*name == ',' || *name == '=') {
+            memcpy(c, *name == ',' ? "=2C" : "=3D", 3);
+            c += 3;
+        } else {
+            *c++ = *name;
+        }
+    }
+    *c = '\0';
+
+    return result;
+}
+
 static int _make_scram_init_msg(struct scram_user_data *scram)
 {
     xmpp_conn_t *conn = scram->conn;
     xmpp_ctx_t *ctx = conn->ctx;
     const void *binding_data;
     const char *binding_type;
+    char *str;
     char *node, *message;
     size_t message_len, binding_type_len = 0, binding_data_len;
     int l, is_secured = xmpp_conn_is_secured(conn);
@@ -602,7 +625,12 @@ static int _make_scram_init_msg(struct scram_user_data *scram)
         binding_type_len += 1;
     }
 
-    node = xmpp_jid_node(ctx, conn->jid);
+    str = xmpp_jid_node(ctx, conn->jid);
+    if (!str) {
+        return -1;
+    }
+    node = _make_saslname(ctx, str);
+    strophe_free(ctx, str);
     if (!node) {
         return -1;
     }
-- 
2.43.0


From 6a9749f6f6ba6114ee92b1baa59ccd24edacd18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:41 +0000
Subject: [PATCH 16/56] fix: stanzas received in small pieces are delayed by
 expat 2.6 reparse deferral

---
 src/parser_expat.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parser_expat.c b/src/parser_expat.c
index c1d1d38..3256780 100644
--- a/src/parser_expat.c
+++ b/src/parser_expat.c
@@ -358,6 +358,14 @@ int parser_reset(parser_t *parser)
 
     parser->depth = 0;
 
+#if defined(XML_MAJOR_VERSION) && \
+    (XML_MAJOR_VERSION > 2 || \
+     (XML_MAJOR_VERSION == 2 && XML_MINOR_VERSION >= 6))
+    /* The last chunk of a stanza must not stay unparsed until the server sends
+     * something else. */
+    XML_SetReparseDeferralEnabled(parser->expat, XML_FALSE);
+#endif
+
     XML_SetUserData(parser->expat, parser);
     XML_SetElementHandler(parser->expat, _start_element, _end_element);
     XML_SetCharacterDataHandler(parser->expat, _characters);
-- 
2.43.0


From f3c47e0ea0a59d7b8e8964cf74aae3eb198df631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:41 +0000
Subject: [PATCH 17/56] fix: stale text length after a parser reset in the
 middle of text

---
 src/parser_expat.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser_expat.c b/src/parser_expat.c
index 3256780..b941ff8 100644
--- a/src/parser_expat.c
+++ b/src/parser_expat.c
@@ -352,6 +352,8 @@ int parser_reset(parser_t *parser)
         strophe_free(parser->ctx, parser->inner_text);
         parser->inner_text = NULL;
     }
+    parser->inner_text_size = 0;
+    parser->inner_text_used = 0;
 
     if (!parser->expat)
         return 0;
-- 
2.43.0


From fc9dc2950eff2f7b68014a714533b361dd5be4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:41 +0000
Subject: [PATCH 18/56] fix: stack overflow on deeply nested elements

---
 src/parser_expat.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/parser_expat.c b/src/parser_expat.c
index b941ff8..ff3fe67 100644
--- a/src/parser_expat.c
+++ b/src/parser_expat.c
@@ -30,6 +30,10 @@
  * number of re-allocations in 2 times for multi-line texts. */
 #define INNER_TEXT_PADDING 2
 
+/* Stanzas are released and rendered recursively, so their depth has to be
+ * limited. */
+#define PARSER_MAX_DEPTH 2048
+
 struct _parser_t {
     xmpp_ctx_t *ctx;
     XML_Parser expat;
@@ -169,6 +173,13 @@ _start_element(void *userdata, const XML_Char *nsname, const XML_Char **attrs)
     xmpp_stanza_t *child;
     char *ns, *name;
 
+    if (parser->depth >= PARSER_MAX_DEPTH) {
+        strophe_error(parser->ctx, "parser", "Elements are nested too deep.");
+        XML_StopParser(parser->expat, XML_FALSE);
+        parser->depth++;
+        return;
+    }
+
     ns = _xml_namespace(parser->ctx, nsname);
     name = _xml_name(parser->ctx, nsname);
 
-- 
2.43.0


From 559e793ddc3a0a49cc32ceeeef0a400c61c18f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:54 +0000
Subject: [PATCH 19/56] fix: read beyond the receive buffer when a parse error
 is logged

---
 src/event.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/event.c b/src/event.c
index 68db0ea..97c8b98 100644
--- a/src/event.c
+++ b/src/event.c
@@ -309,9 +309,10 @@ next_item:
         case XMPP_STATE_CONNECTED:
             if (FD_ISSET(conn->sock, &rfds) || intf->pending(intf)) {
 
-                ret = intf->read(intf, buf, STROPHE_MESSAGE_BUFFER_SIZE);
+                ret = intf->read(intf, buf, STROPHE_MESSAGE_BUFFER_SIZE - 1);
 
                 if (ret > 0) {
+                    buf[ret] = '\0';
                     ret = parser_feed(conn->parser, buf, ret);
                     if (!ret) {
                         strophe_debug(ctx, "xmpp", "parse error [%s]", buf);
-- 
2.43.0


From 7e542f698236ffd8b08525ad0fb03413df81fb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:54 +0000
Subject: [PATCH 20/56] fix: dangling pointers in the send queue after its head
 was sent

---
 src/event.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/event.c b/src/event.c
index 97c8b98..49c2d33 100644
--- a/src/event.c
+++ b/src/event.c
@@ -174,7 +174,11 @@ void xmpp_run_once(xmpp_ctx_t *ctx, unsigned long timeout)
             /* if we've sent everything update the tail */
             if (!sq)
                 conn->send_queue_tail = NULL;
+            else
+                sq->prev = NULL;
             trigger_sm_callback(conn);
+            /* the callback can change the queue */
+            sq = conn->send_queue_head;
         }
         intf->flush(intf);
 
-- 
2.43.0


From bb5f2207c5d3380a2755b20e698f1081bce02a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:54 +0000
Subject: [PATCH 21/56] fix: an interrupted or empty read is taken for a closed
 connection

---
 src/event.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/event.c b/src/event.c
index 49c2d33..3ac74b2 100644
--- a/src/event.c
+++ b/src/event.c
@@ -335,7 +335,7 @@ next_item:
                                       err);
                         conn->error = err;
                         conn_disconnect(conn);
-                    } else if (!conn->tls) {
+                    } else if (ret == 0 && !conn->tls) {
                         /* return of 0 means socket closed by server */
                         strophe_debug(ctx, "xmpp",
                                       "Socket closed by remote host.");
-- 
2.43.0


From d040160e20bfb1e83f2f5e24e81b7528e3137a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:54 +0000
Subject: [PATCH 22/56] fix: an element nothing was written of counts as
 partially sent

---
 src/event.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/event.c b/src/event.c
index 3ac74b2..2338540 100644
--- a/src/event.c
+++ b/src/event.c
@@ -141,7 +141,10 @@ void xmpp_run_once(xmpp_ctx_t *ctx, unsigned long timeout)
             ret = conn_interface_write(intf, &sq->data[sq->written], towrite);
             if (ret > 0 && ret < towrite)
                 sq->written += ret; /* not all data could be sent now */
-            sq->wip = 1;
+            /* TLS and compression can hold data of the element even when they
+             * did not take any of it */
+            if (ret > 0 || conn->tls || conn->compression.state)
+                sq->wip = 1;
             if (ret != towrite)
                 break; /* partial write or an error */
 
-- 
2.43.0


From 769f95d9a703e09471c4edf9196e5f3d22fb8ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:54 +0000
Subject: [PATCH 23/56] fix: xmpp_disconnect has no deadline while connecting,
 timed handlers fire after the disconnect

---
 src/handler.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/handler.c b/src/handler.c
index 0577252..851425f 100644
--- a/src/handler.c
+++ b/src/handler.c
@@ -163,7 +163,7 @@ uint64_t handler_fire_timed(xmpp_ctx_t *ctx)
     connitem = ctx->connlist;
     while (connitem) {
         conn = connitem->conn;
-        if (conn->state != XMPP_STATE_CONNECTED) {
+        if (conn->state == XMPP_STATE_DISCONNECTED) {
             connitem = connitem->next;
             continue;
         }
@@ -173,7 +173,8 @@ uint64_t handler_fire_timed(xmpp_ctx_t *ctx)
             item->enabled = 1;
 
         item = conn->timed_handlers;
-        while (item) {
+        /* a handler can end the connection */
+        while (item && conn->state != XMPP_STATE_DISCONNECTED) {
             /* don't fire user handlers until stream negotiation has completed
                and skip newly added handlers */
             if ((item->user_handler && !conn->stream_negotiation_completed) ||
-- 
2.43.0


From 87006300906165be735476acfd82c7ec716e4b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:05 +0000
Subject: [PATCH 24/56] fix: stream compression loses data on short writes and
 ends on empty reads, buffered input is not processed

---
 src/common.h      |   1 +
 src/compression.c | 129 +++++++++++++++++++++++++++++++---------------
 src/conn.c        |   1 +
 src/event.c       |  18 ++++---
 4 files changed, 101 insertions(+), 48 deletions(-)

diff --git a/src/common.h b/src/common.h
index b8b8dcd..6b130f7 100644
--- a/src/common.h
+++ b/src/common.h
@@ -263,6 +263,7 @@ struct _xmpp_conn_t {
     char *tls_client_cert;
     char *tls_client_key;
     int tls_failed;   /* set when tls fails, so we don't try again */
+    int flush_pending; /* not all data could be flushed to the socket */
     struct scram_user_data *scram_ctx; /* SCRAM exchange in progress */
     int sasl_support; /* if true, field is a bitfield of supported
                          mechanisms */
diff --git a/src/compression.c b/src/compression.c
index b1a2c3a..df850e5 100644
--- a/src/compression.c
+++ b/src/compression.c
@@ -26,6 +26,8 @@
 
 struct zlib_compression {
     void *buffer, *buffer_end;
+    /* first byte of the buffer that was not written yet (compression only) */
+    Bytef *unsent;
     z_stream stream;
 };
 
@@ -33,6 +35,10 @@ struct xmpp_compression {
     xmpp_conn_t *conn;
     struct zlib_compression compression, decompression;
     struct conn_interface next;
+    /* the last read gave no data, although the connection is alive */
+    int starved;
+    /* unrecoverable error of the (de)compression */
+    int error;
 };
 
 static int _conn_decompress(struct xmpp_compression *comp,
@@ -52,22 +58,35 @@ static int _conn_decompress(struct xmpp_compression *comp,
     comp->decompression.stream.next_out = buff;
     comp->decompression.stream.avail_out = len;
     int ret = inflate(&comp->decompression.stream, Z_SYNC_FLUSH);
+    int produced = comp->decompression.stream.next_out - (Bytef *)buff;
     switch (ret) {
     case Z_STREAM_END:
+        /* nothing can follow the end of the compressed stream */
+        if (produced == 0)
+            goto err;
+        break;
     case Z_OK:
-        if (comp->decompression.buffer_end ==
-            comp->decompression.stream.next_in)
+        /* as long as the output buffer gets filled there may be more output */
+        if (comp->decompression.stream.avail_in == 0 &&
+            comp->decompression.stream.avail_out > 0)
             comp->decompression.stream.next_in = NULL;
-        return comp->decompression.stream.next_out - (Bytef *)buff;
+        break;
     case Z_BUF_ERROR:
+        comp->decompression.stream.next_in = NULL;
         break;
     default:
-        strophe_error(comp->conn->ctx, "zlib", "inflate error %d", ret);
-        comp->conn->error = ret;
-        conn_disconnect(comp->conn);
-        break;
+        goto err;
     }
-    return 0;
+    if (produced == 0) {
+        comp->starved = 1;
+        return -1;
+    }
+    return produced;
+
+err:
+    strophe_error(comp->conn->ctx, "zlib", "inflate error %d", ret);
+    comp->error = ret;
+    return -1;
 }
 
 static int compression_read(struct conn_interface *intf, void *buff, size_t len)
@@ -76,6 +95,8 @@ static int compression_read(struct conn_interface *intf, void *buff, size_t len)
     struct xmpp_compression *comp = conn->compression.state;
     void *dbuff = buff;
     size_t dlen = len;
+
+    comp->starved = 0;
     if (comp->decompression.stream.next_in != NULL) {
         return _conn_decompress(comp, 0, buff, len);
     }
@@ -88,60 +109,68 @@ static int compression_read(struct conn_interface *intf, void *buff, size_t len)
     return ret;
 }
 
+/* Hand the compressed data over to the network, either only when the buffer is
+ * full or in any case (force). Returns a negative value on an error, otherwise
+ * the number of bytes that are still in the buffer. */
 static int _try_compressed_write_to_network(xmpp_conn_t *conn, int force)
 {
     struct xmpp_compression *comp = conn->compression.state;
-    int ret = 0;
-    ptrdiff_t len =
-        comp->compression.stream.next_out - (Bytef *)comp->compression.buffer;
-    int buffer_full =
-        comp->compression.stream.next_out == comp->compression.buffer_end;
-    if ((buffer_full || force) && len > 0) {
-        ret = conn_interface_write(&comp->next, comp->compression.buffer, len);
+    struct zlib_compression *z = &comp->compression;
+    int ret;
+    ptrdiff_t len = z->stream.next_out - z->unsent;
+    int buffer_full = z->stream.next_out == z->buffer_end;
+
+    /* Data may be written in several pieces, but it must not be moved: TLS
+     * wants to see the same buffer when a write is repeated. */
+    while ((buffer_full || force) && len > 0) {
+        ret = conn_interface_write(&comp->next, z->unsent, len);
         if (ret < 0)
             return ret;
-        comp->compression.stream.next_out = comp->compression.buffer;
-        comp->compression.stream.avail_out = STROPHE_COMPRESSION_BUFFER_SIZE;
+        if (ret == 0)
+            break;
+        z->unsent += ret;
+        len -= ret;
     }
-    return ret;
+    if (len == 0) {
+        z->unsent = z->buffer;
+        z->stream.next_out = z->buffer;
+        z->stream.avail_out = STROPHE_COMPRESSION_BUFFER_SIZE;
+    }
+    return len;
 }
 
+/* Returns the number of bytes taken from the buffer, or a negative value if
+ * none could be taken. */
 static int
 _compression_write(xmpp_conn_t *conn, const void *buff, size_t len, int flush)
 {
     int ret;
-    const void *buff_end = buff + len;
     struct xmpp_compression *comp = conn->compression.state;
+
+    comp->starved = 0;
     comp->compression.stream.next_in = (Bytef *)buff;
     comp->compression.stream.avail_in = len;
     do {
         ret = _try_compressed_write_to_network(conn, 0);
-        if (ret < 0) {
-            return ret;
+        if (comp->compression.stream.avail_out == 0) {
+            /* no room for more output */
+            len -= comp->compression.stream.avail_in;
+            return ret < 0 && len == 0 ? ret : (int)len;
         }
 
         ret = deflate(&comp->compression.stream, flush);
-        if (ret == Z_STREAM_END) {
-            break;
-        }
-        if (flush && ret == Z_BUF_ERROR) {
+        if (ret == Z_BUF_ERROR) {
             break;
         }
         if (ret != Z_OK) {
             strophe_error(conn->ctx, "zlib", "deflate error %d", ret);
+            comp->error = ret;
             conn->error = ret;
-            conn_disconnect(conn);
-            return ret;
-        }
-        ret = comp->compression.stream.next_in - (Bytef *)buff;
-    } while (comp->compression.stream.next_in < (Bytef *)buff_end);
-    if (flush) {
-        ret = _try_compressed_write_to_network(conn, 1);
-        if (ret < 0) {
-            return ret;
+            return -1;
         }
-    }
-    return ret;
+    } while (comp->compression.stream.avail_in > 0 ||
+             (flush && comp->compression.stream.avail_out == 0));
+    return len;
 }
 
 static int
@@ -154,9 +183,15 @@ static int compression_flush(struct conn_interface *intf)
 {
     xmpp_conn_t *conn = intf->conn;
     struct xmpp_compression *comp = conn->compression.state;
-    return _compression_write(conn, comp->compression.buffer, 0,
-                              conn->compression.dont_reset ? Z_SYNC_FLUSH
-                                                           : Z_FULL_FLUSH);
+    int ret;
+
+    ret = _compression_write(conn, comp->compression.buffer, 0,
+                             conn->compression.dont_reset ? Z_SYNC_FLUSH
+                                                          : Z_FULL_FLUSH);
+    if (ret >= 0)
+        ret = _try_compressed_write_to_network(conn, 1);
+    /* not everything is flushed while there was no room for more output */
+    return ret;
 }
 
 static int compression_pending(struct conn_interface *intf)
@@ -169,13 +204,23 @@ static int compression_pending(struct conn_interface *intf)
 
 static int compression_get_error(struct conn_interface *intf)
 {
-    struct conn_interface *next = &intf->conn->compression.state->next;
+    struct xmpp_compression *comp = intf->conn->compression.state;
+    struct conn_interface *next = &comp->next;
+    if (comp->error)
+        return comp->error;
+    if (comp->starved)
+        return 0;
     return next->get_error(next);
 }
 
 static int compression_is_recoverable(struct conn_interface *intf, int err)
 {
-    struct conn_interface *next = &intf->conn->compression.state->next;
+    struct xmpp_compression *comp = intf->conn->compression.state;
+    struct conn_interface *next = &comp->next;
+    if (comp->error)
+        return 0;
+    if (comp->starved)
+        return 1;
     return next->error_is_recoverable(next, err);
 }
 
@@ -225,6 +270,7 @@ int compression_init(xmpp_conn_t *conn)
 
     _init_zlib_compression(conn->ctx, &comp->compression);
 
+    comp->compression.unsent = comp->compression.buffer;
     comp->compression.stream.next_out = comp->compression.buffer;
     comp->compression.stream.avail_out = STROPHE_COMPRESSION_BUFFER_SIZE;
     int ret = deflateInit(&comp->compression.stream, Z_DEFAULT_COMPRESSION);
@@ -260,6 +306,7 @@ void compression_free(xmpp_conn_t *conn)
         inflateEnd(&comp->decompression.stream);
         strophe_free_and_null(conn->ctx, comp->decompression.buffer);
     }
+    strophe_free_and_null(conn->ctx, conn->compression.state);
 }
 
 void compression_handle_feature_children(xmpp_conn_t *conn, const char *text)
diff --git a/src/conn.c b/src/conn.c
index 6246ef0..f65282c 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -2204,6 +2204,7 @@ static void _conn_reset(xmpp_conn_t *conn)
     conn->secured = 0;
     conn->tls_failed = 0;
     conn->error = 0;
+    conn->flush_pending = 0;
 
     conn->tls_support = 0;
     conn->sasl_support = 0;
diff --git a/src/event.c b/src/event.c
index 2338540..a99d402 100644
--- a/src/event.c
+++ b/src/event.c
@@ -102,7 +102,7 @@ void xmpp_run_once(xmpp_ctx_t *ctx, unsigned long timeout)
     char buf[STROPHE_MESSAGE_BUFFER_SIZE];
     uint64_t next;
     uint64_t usec;
-    int tls_read_bytes = 0;
+    int pending = 0;
 
     if (ctx->loop_status == XMPP_LOOP_QUIT)
         return;
@@ -183,7 +183,7 @@ void xmpp_run_once(xmpp_ctx_t *ctx, unsigned long timeout)
             /* the callback can change the queue */
             sq = conn->send_queue_head;
         }
-        intf->flush(intf);
+        conn->flush_pending = intf->flush(intf) != 0;
 
         /* tear down connection on error */
         if (conn->error) {
@@ -242,7 +242,7 @@ next_item:
             break;
         case XMPP_STATE_CONNECTED:
             FD_SET(conn->sock, &rfds);
-            if (conn->send_queue_len > 0)
+            if (conn->send_queue_len > 0 || conn->flush_pending)
                 FD_SET(conn->sock, &wfds);
             break;
         case XMPP_STATE_DISCONNECTED:
@@ -251,9 +251,9 @@ next_item:
             break;
         }
 
-        /* Check if there is something in the SSL buffer. */
-        if (conn->tls)
-            tls_read_bytes += tls_pending(intf);
+        /* Check if there is something in the buffers of TLS or compression. */
+        if (conn->state == XMPP_STATE_CONNECTED)
+            pending += intf->pending(intf);
 
         if (conn->state != XMPP_STATE_DISCONNECTED && conn->sock > max)
             max = conn->sock;
@@ -261,6 +261,10 @@ next_item:
         connitem = connitem->next;
     }
 
+    /* there is something to do already */
+    if (pending > 0)
+        tv.tv_sec = tv.tv_usec = 0;
+
     /* check for events */
     if (max > 0)
         ret = select(max + 1, &rfds, &wfds, NULL, &tv);
@@ -279,7 +283,7 @@ next_item:
     }
 
     /* no events happened */
-    if (ret == 0 && tls_read_bytes == 0)
+    if (ret == 0 && pending == 0)
         return;
 
     /* process events */
-- 
2.43.0


From 2c494a527e3550751a643e4fee747e2c4e4eb6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:25 +0000
Subject: [PATCH 25/56] fix: xmpp_send_raw sends user data before the stream is
 negotiated

---
 src/conn.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/conn.c b/src/conn.c
index f65282c..1d088f4 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -1040,6 +1040,11 @@ void xmpp_send_raw_string(xmpp_conn_t *conn, const char *fmt, ...)
  */
 void xmpp_send_raw(xmpp_conn_t *conn, const char *data, size_t len)
 {
+    /* without a connect function having been called there is no stream that
+     * is still to be negotiated, what's queued is kept for later */
+    if (conn->type != XMPP_UNKNOWN && !_is_connected(conn, XMPP_QUEUE_USER))
+        return;
+
     send_raw(conn, data, len, XMPP_QUEUE_USER, NULL);
 }
 
-- 
2.43.0


From feb3355ca9dc4d143f6f93efba324b61b4866bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:25 +0000
Subject: [PATCH 26/56] fix: xmpp_send_raw reads beyond data that is not
 NUL-terminated

---
 src/conn.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index 1d088f4..9fb5646 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -2292,11 +2292,14 @@ void send_raw(xmpp_conn_t *conn,
     if (conn->state != XMPP_STATE_CONNECTED)
         return;
 
-    d = strophe_strndup(conn->ctx, data, len);
+    /* the data doesn't have to be a string */
+    d = strophe_alloc(conn->ctx, len + 1);
     if (!d) {
-        strophe_error(conn->ctx, "conn", "Failed to strndup");
+        strophe_error(conn->ctx, "conn", "Failed to allocate memory");
         return;
     }
+    memcpy(d, data, len);
+    d[len] = '\0';
 
     _send_raw(conn, d, len, owner, userdata);
 }
-- 
2.43.0


From 3505e0ee8a5c6c0d95c2ec409749a2cd01c3c5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:03 +0000
Subject: [PATCH 27/56] fix: 'h' of stream management is not validated and the
 counters' wrap-around breaks the retained queue

---
 src/auth.c   | 30 +++++++++---------------------
 src/common.h |  1 +
 src/conn.c   | 45 +++++++++++++++++++++++++--------------------
 src/util.c   | 22 ++++++++++++++++++----
 src/util.h   |  2 +-
 5 files changed, 54 insertions(+), 46 deletions(-)

diff --git a/src/auth.c b/src/auth.c
index 4878e41..7982daf 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -1403,30 +1403,18 @@ static int _handle_missing_legacy(xmpp_conn_t *conn, void *userdata)
     return 0;
 }
 
-static int _get_h_attribute(xmpp_stanza_t *stanza, unsigned long *ul_h)
+static int _get_h_attribute(xmpp_stanza_t *stanza, uint32_t *u32_h)
 {
     const char *h = xmpp_stanza_get_attribute(stanza, "h");
-    if (!h || string_to_ul(h, ul_h)) {
-        strophe_error(
-            stanza->ctx, "xmpp",
-            "SM error: failed parsing 'h', \"%s\" got converted to %llu.",
-            STR_MAYBE_NULL(h), *ul_h);
+    if (!h || string_to_u32(h, u32_h)) {
+        strophe_error(stanza->ctx, "xmpp",
+                      "SM error: missing or invalid 'h', \"%s\".",
+                      STR_MAYBE_NULL(h));
         return -1;
     }
     return 0;
 }
 
-static void _sm_queue_cleanup(xmpp_conn_t *conn, unsigned long ul_h)
-{
-    xmpp_send_queue_t *e;
-    while ((e = peek_queue_front(&conn->sm_state->sm_queue))) {
-        if (e->sm_h >= ul_h)
-            break;
-        e = pop_queue_front(&conn->sm_state->sm_queue);
-        strophe_free(conn->ctx, queue_element_free(conn->ctx, e));
-    }
-}
-
 static void _sm_queue_resend(xmpp_conn_t *conn)
 {
     xmpp_send_queue_t *e;
@@ -1447,7 +1435,7 @@ static int _handle_sm(xmpp_conn_t *const conn,
 {
     xmpp_stanza_t *failed_cause, *bind = NULL;
     const char *name, *id, *previd, *resume, *cause;
-    unsigned long ul_h = 0;
+    uint32_t ul_h = 0;
 
     UNUSED(userdata);
 
@@ -1498,7 +1486,7 @@ static int _handle_sm(xmpp_conn_t *const conn,
             conn->sm_state->sm_sent_nr = conn->sm_state->sm_queue.head->sm_h;
         else
             conn->sm_state->sm_sent_nr = ul_h;
-        _sm_queue_cleanup(conn, ul_h);
+        sm_queue_cleanup(conn->sm_state, ul_h);
         _sm_queue_resend(conn);
         strophe_debug(conn->ctx, "xmpp", "Session resumed successfully.");
         _stream_negotiation_success(conn);
@@ -1523,9 +1511,9 @@ static int _handle_sm(xmpp_conn_t *const conn,
                  */
                 if (!_get_h_attribute(stanza, &ul_h)) {
                     /* In cases there's no `h` included, drop all elements. */
-                    ul_h = (unsigned long)-1;
+                    ul_h = UINT32_MAX;
                 }
-                _sm_queue_cleanup(conn, ul_h);
+                sm_queue_cleanup(conn->sm_state, ul_h);
             }
         } else if (!strcmp(cause, "feature-not-implemented")) {
             conn->sm_state->resume = 0;
diff --git a/src/common.h b/src/common.h
index 6b130f7..6f7f229 100644
--- a/src/common.h
+++ b/src/common.h
@@ -386,6 +386,7 @@ void handler_system_delete_all(xmpp_conn_t *conn);
 
 /* utility functions */
 void trigger_sm_callback(xmpp_conn_t *conn);
+void sm_queue_cleanup(xmpp_sm_state_t *sm_state, uint32_t h);
 void reset_sm_state(xmpp_sm_state_t *sm_state);
 void disconnect_mem_error(xmpp_conn_t *conn);
 
diff --git a/src/conn.c b/src/conn.c
index 9fb5646..56d4cbc 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -1714,6 +1714,22 @@ int xmpp_conn_set_sm_state(xmpp_conn_t *conn, xmpp_sm_state_t *sm_state)
     return XMPP_EOK;
 }
 
+/* release the elements that have been handled by the server, the counters
+ * wrap around at 2^32 */
+void sm_queue_cleanup(xmpp_sm_state_t *sm_state, uint32_t h)
+{
+    xmpp_send_queue_t *e;
+
+    while ((e = peek_queue_front(&sm_state->sm_queue))) {
+        if ((int32_t)(h - e->sm_h) <= 0)
+            break;
+        e = pop_queue_front(&sm_state->sm_queue);
+        strophe_debug_verbose(2, sm_state->ctx, "conn", "SM_Q_DROP: %p, h=%lu",
+                              e, e->sm_h);
+        strophe_free(sm_state->ctx, queue_element_free(sm_state->ctx, e));
+    }
+}
+
 void reset_sm_state(xmpp_sm_state_t *sm_state)
 {
     xmpp_ctx_t *ctx = sm_state->ctx;
@@ -2091,11 +2107,9 @@ static void _conn_sm_handle_stanza(xmpp_conn_t *const conn,
                                    xmpp_stanza_t *stanza)
 {
     xmpp_stanza_t *a;
-    xmpp_send_queue_t *e;
-    char *c;
     const char *name, *ns, *attr_h;
     char h[11];
-    unsigned long ul_h;
+    uint32_t ack_h;
 
     ns = xmpp_stanza_get_ns(stanza);
     if (ns && strcmp(ns, XMPP_NS_SM) != 0)
@@ -2121,24 +2135,15 @@ static void _conn_sm_handle_stanza(xmpp_conn_t *const conn,
                 strophe_debug(conn->ctx, "conn", "Didn't find 'h' attribute.");
                 return;
             }
-            if (string_to_ul(attr_h, &ul_h)) {
-                strophe_error(
-                    conn->ctx, "conn",
-                    "Error on strtoul() of '%s', returned value is %llu.",
-                    attr_h, ul_h);
-                /* We continue here and drop the complete SM queue instead of
-                 * returning and letting the queue fill up.
-                 */
-                ul_h = ULONG_MAX;
-            }
-            while (conn->sm_state->sm_queue.head &&
-                   conn->sm_state->sm_queue.head->sm_h < ul_h) {
-                e = pop_queue_front(&conn->sm_state->sm_queue);
-                strophe_debug_verbose(2, conn->ctx, "conn",
-                                      "SM_Q_DROP: %p, h=%lu", e, e->sm_h);
-                c = queue_element_free(conn->ctx, e);
-                strophe_free(conn->ctx, c);
+            if (string_to_u32(attr_h, &ack_h)) {
+                strophe_error(conn->ctx, "conn", "Invalid 'h' attribute '%s'.",
+                              attr_h);
+                return;
             }
+            /* nothing of this session has been sent yet */
+            if (!conn->stream_negotiation_completed)
+                return;
+            sm_queue_cleanup(conn->sm_state, ack_h);
             conn->sm_state->r_sent = 0;
         }
     }
diff --git a/src/util.c b/src/util.c
index 6faec99..10f879a 100644
--- a/src/util.c
+++ b/src/util.c
@@ -163,11 +163,25 @@ void disconnect_mem_error(xmpp_conn_t *conn)
     xmpp_disconnect(conn);
 }
 
-int string_to_ul(const char *s, unsigned long *ul)
+/** Convert a string of decimal digits to a number.
+ *
+ *  @return 0 on success, 1 if it's not a number or exceeds 32 bits
+ */
+int string_to_u32(const char *s, uint32_t *val)
 {
-    char *endptr;
-    *ul = strtoul(s, &endptr, 10);
-    return *endptr != '\0';
+    uint64_t v = 0;
+
+    if (*s == '\0')
+        return 1;
+    for (; *s; s++) {
+        if (*s < '0' || *s > '9')
+            return 1;
+        v = v * 10 + (uint64_t)(*s - '0');
+        if (v > UINT32_MAX)
+            return 1;
+    }
+    *val = (uint32_t)v;
+    return 0;
 }
 
 void hex_encode(char *writebuf, void *readbuf, size_t len)
diff --git a/src/util.h b/src/util.h
index 4529086..a292048 100644
--- a/src/util.h
+++ b/src/util.h
@@ -34,7 +34,7 @@ uint64_t time_stamp(void);
 uint64_t time_elapsed(uint64_t t1, uint64_t t2);
 
 /* misc functions */
-int string_to_ul(const char *s, unsigned long *ul);
+int string_to_u32(const char *s, uint32_t *val);
 void hex_encode(char *writebuf, void *readbuf, size_t len);
 
 #endif /* __LIBSTROPHE_UTIL_H__ */
-- 
2.43.0


From 6a1733bcf29f999e317c147ee2e0342a5905e101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:18 +0000
Subject: [PATCH 28/56] fix: the closing stream tag is counted and
 retransmitted as a stanza by stream management

---
 src/common.h |  1 +
 src/conn.c   | 11 ++++++++++-
 src/event.c  |  2 +-
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/common.h b/src/common.h
index 6f7f229..c81b2d7 100644
--- a/src/common.h
+++ b/src/common.h
@@ -413,6 +413,7 @@ void send_raw(xmpp_conn_t *conn,
  * owned by libstrophe
  */
 void send_raw_string(xmpp_conn_t *conn, const char *fmt, ...);
+void send_stream_end(xmpp_conn_t *conn);
 void send_stanza(xmpp_conn_t *conn,
                  xmpp_stanza_t *stanza,
                  xmpp_send_queue_owner_t owner);
diff --git a/src/conn.c b/src/conn.c
index 56d4cbc..3846298 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -979,6 +979,15 @@ void conn_parser_reset(xmpp_conn_t *conn)
     parser_reset(conn->parser);
 }
 
+/* the end of the stream is no stanza, i.e. it must neither be counted nor
+ * retained by stream management */
+void send_stream_end(xmpp_conn_t *conn)
+{
+    const char *end = "</stream:stream>";
+
+    send_raw(conn, end, strlen(end), XMPP_QUEUE_SM_STROPHE, NULL);
+}
+
 /** Initiate termination of the connection to the XMPP server.
  *  This function starts the disconnection sequence by sending
  *  </stream:stream> to the XMPP server.  This function will do nothing
@@ -995,7 +1004,7 @@ void xmpp_disconnect(xmpp_conn_t *conn)
         return;
 
     /* close the stream */
-    send_raw_string(conn, "</stream:stream>");
+    send_stream_end(conn);
 
     /* setup timed handler in case disconnect takes too long */
     handler_add_timed(conn, _disconnect_cleanup, DISCONNECT_TIMEOUT, NULL);
diff --git a/src/event.c b/src/event.c
index a99d402..ca958eb 100644
--- a/src/event.c
+++ b/src/event.c
@@ -329,7 +329,7 @@ next_item:
                         strophe_debug(ctx, "xmpp", "parse error [%s]", buf);
                         xmpp_send_error(conn, XMPP_SE_INVALID_XML,
                                         "parse error");
-                        send_raw_string(conn, "</stream:stream>");
+                        send_stream_end(conn);
                         /* nothing can be parsed from now on, the connection is
                          * torn down once the error has been sent */
                         if (!conn->error)
-- 
2.43.0


From 88c6edb1df9b55afac7a6721f38d0723b97d46ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:13 +0000
Subject: [PATCH 29/56] fix: stream errors are counted and retransmitted as
 stanzas by stream management

---
 src/conn.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/conn.c b/src/conn.c
index 3846298..a711f43 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -129,7 +129,8 @@ void xmpp_send_error(xmpp_conn_t *conn, xmpp_error_type_t type, char *text)
 {
     xmpp_stanza_t *error = xmpp_error_new(conn->ctx, type, text);
 
-    send_stanza(conn, error, XMPP_QUEUE_STROPHE);
+    /* a stream error is no stanza, c.f. send_stream_end() */
+    send_stanza(conn, error, XMPP_QUEUE_SM_STROPHE);
 }
 
 /** Create a new Strophe connection object.
-- 
2.43.0


From 2267f392da88e1d47a4bbd4ce3cbd8d611602c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:13 +0000
Subject: [PATCH 30/56] fix: stream management is resumed although the server
 does not offer it, offers of earlier features are kept

---
 src/auth.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/auth.c b/src/auth.c
index 7982daf..50bc65f 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -1185,27 +1185,28 @@ _handle_features_sasl(xmpp_conn_t *conn, xmpp_stanza_t *stanza, void *userdata)
      * has shown that this additional step is unnecessary. [...]" */
     session = xmpp_stanza_get_child_by_name_and_ns(stanza, "session",
                                                    XMPP_NS_SESSION);
-    if (session) {
-        conn->session_required =
-            xmpp_stanza_get_child_by_name(session, "optional") == NULL;
-    }
+    conn->session_required =
+        session && !xmpp_stanza_get_child_by_name(session, "optional");
 
     /* Check stream-management support */
-    if (xmpp_stanza_get_child_by_name_and_ns(stanza, "sm", XMPP_NS_SM)) {
-        conn->sm_state->sm_support = 1;
-    }
+    conn->sm_state->sm_support =
+        xmpp_stanza_get_child_by_name_and_ns(stanza, "sm", XMPP_NS_SM) != NULL;
 
     /* We are expecting either <bind/> and optionally <session/> since this is a
        XMPP style connection or we <resume/> the previous session */
 
     /* Check whether we can <resume/> the previous session */
-    if (!conn->sm_disable && conn->sm_state->can_resume &&
-        conn->sm_state->previd && conn->sm_state->bound_jid) {
+    if (!conn->sm_disable && conn->sm_state->sm_support &&
+        conn->sm_state->can_resume && conn->sm_state->previd) {
         resume = xmpp_stanza_new(conn->ctx);
         if (!resume) {
+            if (bind)
+                xmpp_stanza_release(bind);
             disconnect_mem_error(conn);
             return 0;
         }
+        if (conn->sm_state->bind)
+            xmpp_stanza_release(conn->sm_state->bind);
         conn->sm_state->bind = bind;
         conn->sm_state->resume = 1;
         xmpp_stanza_set_name(resume, "resume");
-- 
2.43.0


From ed063362292d1d613412d630af22cce665127e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:52 +0000
Subject: [PATCH 31/56] fix: stream management negotiation: failed resumption
 drops the queue or keeps bind in it, failed activation hangs, unexpected and
 malformed replies are accepted or hang

---
 src/auth.c | 218 ++++++++++++++++++++++++++++++-----------------------
 1 file changed, 122 insertions(+), 96 deletions(-)

diff --git a/src/auth.c b/src/auth.c
index 50bc65f..f06ea04 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -1293,6 +1293,28 @@ static void _sm_enable(xmpp_conn_t *conn)
     trigger_sm_callback(conn);
 }
 
+static void _sm_queue_resend(xmpp_conn_t *conn)
+{
+    xmpp_send_queue_t *e;
+    while ((e = pop_queue_front(&conn->sm_state->sm_queue))) {
+        /* Re-send what was already sent out and is still in the
+         * SM queue (i.e. it hasn't been ACK'ed by the server)
+         */
+        strophe_debug_verbose(2, conn->ctx, "conn", "SM_Q_RESEND: %p, h=%lu", e,
+                              e->sm_h);
+        send_raw(conn, e->data, e->len, e->owner, NULL);
+        strophe_free(conn->ctx, queue_element_free(conn->ctx, e));
+    }
+}
+
+/* a new session without stream management is established, there will be no
+ * other chance to send what an earlier session left unacknowledged */
+static void _stream_negotiation_success_no_sm(xmpp_conn_t *conn)
+{
+    _sm_queue_resend(conn);
+    _stream_negotiation_success(conn);
+}
+
 static int
 _handle_bind(xmpp_conn_t *conn, xmpp_stanza_t *stanza, void *userdata)
 {
@@ -1313,9 +1335,16 @@ _handle_bind(xmpp_conn_t *conn, xmpp_stanza_t *stanza, void *userdata)
         binding = xmpp_stanza_get_child_by_name(stanza, "bind");
         strophe_debug(conn->ctx, "xmpp", "Bind successful.");
 
+        /* this is a new session, the previous one can't be resumed anymore */
+        conn->sm_state->can_resume = 0;
+        strophe_free_and_null(conn->ctx, conn->sm_state->previd);
+        strophe_free_and_null(conn->ctx, conn->sm_state->bound_jid);
+
         if (binding) {
             jid_stanza = xmpp_stanza_get_child_by_name(binding, "jid");
             if (jid_stanza) {
+                if (conn->bound_jid)
+                    strophe_free(conn->ctx, conn->bound_jid);
                 conn->bound_jid = xmpp_stanza_get_text(jid_stanza);
             }
         }
@@ -1333,7 +1362,7 @@ _handle_bind(xmpp_conn_t *conn, xmpp_stanza_t *stanza, void *userdata)
          * successful
          */
         else {
-            _stream_negotiation_success(conn);
+            _stream_negotiation_success_no_sm(conn);
         }
     } else {
         strophe_error(conn->ctx, "xmpp", "Server sent malformed bind reply.");
@@ -1372,7 +1401,7 @@ _handle_session(xmpp_conn_t *conn, xmpp_stanza_t *stanza, void *userdata)
         if (conn->sm_state->sm_support && !conn->sm_disable) {
             _sm_enable(conn);
         } else {
-            _stream_negotiation_success(conn);
+            _stream_negotiation_success_no_sm(conn);
         }
     } else {
         strophe_error(conn->ctx, "xmpp",
@@ -1416,147 +1445,144 @@ static int _get_h_attribute(xmpp_stanza_t *stanza, uint32_t *u32_h)
     return 0;
 }
 
-static void _sm_queue_resend(xmpp_conn_t *conn)
+static void _sm_unexpected(xmpp_conn_t *conn, xmpp_stanza_t *stanza)
 {
-    xmpp_send_queue_t *e;
-    while ((e = pop_queue_front(&conn->sm_state->sm_queue))) {
-        /* Re-send what was already sent out and is still in the
-         * SM queue (i.e. it hasn't been ACK'ed by the server)
-         */
-        strophe_debug_verbose(2, conn->ctx, "conn", "SM_Q_RESEND: %p, h=%lu", e,
-                              e->sm_h);
-        send_raw(conn, e->data, e->len, e->owner, NULL);
-        strophe_free(conn->ctx, queue_element_free(conn->ctx, e));
+    char *buf;
+    size_t buflen;
+
+    if (xmpp_stanza_to_text(stanza, &buf, &buflen) == XMPP_EOK) {
+        strophe_warn(conn->ctx, "xmpp", "SM error: Stanza received was: %s",
+                     buf);
+        strophe_free(conn->ctx, buf);
     }
+    xmpp_disconnect(conn);
 }
 
 static int _handle_sm(xmpp_conn_t *const conn,
                       xmpp_stanza_t *const stanza,
                       void *const userdata)
 {
-    xmpp_stanza_t *failed_cause, *bind = NULL;
+    xmpp_sm_state_t *s = conn->sm_state;
+    xmpp_stanza_t *failed_cause, *bind;
     const char *name, *id, *previd, *resume, *cause;
-    uint32_t ul_h = 0;
+    uint32_t h;
 
     UNUSED(userdata);
 
     name = xmpp_stanza_get_name(stanza);
     if (!name)
-        goto err_sm;
-
-    if (strcmp(name, "enabled") == 0) {
-        conn->sm_state->sm_handled_nr = 0;
+        return 1;
+    /* not the answer we're waiting for, c.f. _conn_sm_handle_stanza() */
+    if (strcmp(name, "r") == 0 || strcmp(name, "a") == 0)
+        return 1;
+
+    if (strcmp(name, "enabled") == 0 && !s->resume) {
+        s->sm_handled_nr = 0;
+        s->can_resume = 0;
+        strophe_free_and_null(conn->ctx, s->id);
         resume = xmpp_stanza_get_attribute(stanza, "resume");
-        if (resume && (strcasecmp(resume, "true") || strcmp(resume, "1"))) {
+        if (resume && (!strcasecmp(resume, "true") || !strcmp(resume, "1"))) {
             id = xmpp_stanza_get_attribute(stanza, "id");
-            if (!id) {
+            if (id) {
+                s->id = strophe_strdup(conn->ctx, id);
+                s->can_resume = s->id != NULL;
+            } else {
                 strophe_error(conn->ctx, "xmpp",
                               "SM error: server said it can resume, but "
                               "didn't provide an ID.");
-                name = NULL;
-                goto err_sm;
             }
-            conn->sm_state->can_resume = 1;
-            conn->sm_state->id = strophe_strdup(conn->ctx, id);
         }
         /* We maybe have stuff in the SM queue if we tried to resume, but the
          * server doesn't remember all details of our session, but the `h` was
          * still available.
          */
         _sm_queue_resend(conn);
+        trigger_sm_callback(conn);
         _stream_negotiation_success(conn);
-    } else if (strcmp(name, "resumed") == 0) {
+    } else if (strcmp(name, "resumed") == 0 && s->resume) {
         previd = xmpp_stanza_get_attribute(stanza, "previd");
-        if (!previd || strcmp(previd, conn->sm_state->previd)) {
+        if (!previd || strcmp(previd, s->previd)) {
             strophe_error(conn->ctx, "xmpp",
                           "SM error: previd didn't match, ours is \"%s\".",
-                          conn->sm_state->previd);
-            name = NULL;
-            goto err_sm;
+                          s->previd);
+            _sm_unexpected(conn, stanza);
+            return 0;
+        }
+        if (_get_h_attribute(stanza, &h)) {
+            _sm_unexpected(conn, stanza);
+            return 0;
         }
-        if (_get_h_attribute(stanza, &ul_h)) {
-            name = NULL;
-            goto err_sm;
+        s->resume = 0;
+        s->sm_enabled = 1;
+        if (s->id)
+            strophe_free(conn->ctx, s->id);
+        s->id = s->previd;
+        s->previd = NULL;
+        if (conn->bound_jid)
+            strophe_free(conn->ctx, conn->bound_jid);
+        conn->bound_jid = s->bound_jid;
+        s->bound_jid = NULL;
+        if (s->bind) {
+            xmpp_stanza_release(s->bind);
+            s->bind = NULL;
         }
-        conn->sm_state->sm_enabled = 1;
-        conn->sm_state->id = conn->sm_state->previd;
-        conn->sm_state->previd = NULL;
-        conn->bound_jid = conn->sm_state->bound_jid;
-        conn->sm_state->bound_jid = NULL;
-        if (conn->sm_state->sm_queue.head)
-            conn->sm_state->sm_sent_nr = conn->sm_state->sm_queue.head->sm_h;
-        else
-            conn->sm_state->sm_sent_nr = ul_h;
-        sm_queue_cleanup(conn->sm_state, ul_h);
+        sm_queue_cleanup(s, h);
+        /* the next stanza we send is the one after those the server counted */
+        s->sm_sent_nr = h;
         _sm_queue_resend(conn);
+        trigger_sm_callback(conn);
         strophe_debug(conn->ctx, "xmpp", "Session resumed successfully.");
         _stream_negotiation_success(conn);
     } else if (strcmp(name, "failed") == 0) {
-        name = NULL;
-        conn->sm_state->sm_enabled = 0;
+        s->sm_enabled = 0;
 
         failed_cause =
             xmpp_stanza_get_child_by_ns(stanza, XMPP_NS_STANZAS_IETF);
-        if (!failed_cause)
-            goto err_sm;
-
-        cause = xmpp_stanza_get_name(failed_cause);
-        if (!cause)
-            goto err_sm;
-
-        if (!strcmp(cause, "item-not-found")) {
-            if (conn->sm_state->resume) {
-                /* It's no error if there's no `h` attribute included
-                 * but if there is, it gives a hint at what the server
-                 * already received.
-                 */
-                if (!_get_h_attribute(stanza, &ul_h)) {
-                    /* In cases there's no `h` included, drop all elements. */
-                    ul_h = UINT32_MAX;
-                }
-                sm_queue_cleanup(conn->sm_state, ul_h);
-            }
-        } else if (!strcmp(cause, "feature-not-implemented")) {
-            conn->sm_state->resume = 0;
-            conn->sm_state->can_resume = 0;
+        cause = failed_cause ? xmpp_stanza_get_name(failed_cause) : NULL;
+        strophe_warn(conn->ctx, "xmpp", "SM error: %s failed: %s",
+                     s->resume ? "resumption" : "activation",
+                     STR_MAYBE_NULL(cause));
+
+        if (cause && !strcmp(cause, "feature-not-implemented")) {
             /* remember that the server reports having support
              * for resumption, but actually it doesn't ...
              */
-            conn->sm_state->dont_request_resume = 1;
+            s->dont_request_resume = 1;
         }
-        bind = conn->sm_state->bind;
-        conn->sm_state->bind = NULL;
-        reset_sm_state(conn->sm_state);
-        _do_bind(conn, bind);
-    } else {
-        /* unknown stanza received */
-        name = NULL;
-    }
 
-    trigger_sm_callback(conn);
-
-err_sm:
-    if (!name) {
-        char *err = "Couldn't convert stanza to text!";
-        char *buf;
-        size_t buflen;
-        switch (xmpp_stanza_to_text(stanza, &buf, &buflen)) {
-        case XMPP_EOK:
-            break;
-        case XMPP_EMEM:
-            disconnect_mem_error(conn);
+        if (!s->resume) {
+            /* `<enable/>` failed, we continue without stream management */
+            _stream_negotiation_success_no_sm(conn);
             return 0;
-        default:
-            buf = err;
-            break;
         }
-        strophe_warn(conn->ctx, "xmpp", "SM error: Stanza received was: %s",
-                     buf);
-        if (buf != err)
-            strophe_free(conn->ctx, buf);
-        /* Don't disable for <failure> cases, they're no hard errors */
-        conn->sm_state->sm_enabled = bind != NULL;
+
+        /* It's no error if there's no `h` attribute included
+         * but if there is, it gives a hint at what the server
+         * already received. Everything else has to be sent again.
+         */
+        if (xmpp_stanza_get_attribute(stanza, "h") &&
+            !_get_h_attribute(stanza, &h))
+            sm_queue_cleanup(s, h);
+
+        bind = s->bind;
+        s->bind = NULL;
+        s->resume = 0;
+        s->can_resume = 0;
+        reset_sm_state(s);
+        trigger_sm_callback(conn);
+        if (bind) {
+            _do_bind(conn, bind);
+        } else {
+            strophe_error(conn->ctx, "xmpp",
+                          "Stream features does not allow "
+                          "resource bind.");
+            xmpp_disconnect(conn);
+        }
+    } else {
+        /* unknown stanza received */
+        _sm_unexpected(conn, stanza);
     }
+
     return 0;
 }
 
-- 
2.43.0


From e5a1542ed5f9d7d915b5b06255d4c7f7a7aa84b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:25 +0000
Subject: [PATCH 32/56] fix: retransmissions not written when the connection is
 lost are dropped, the session to resume is forgotten when a reconnect fails
 early

---
 src/auth.c   | 20 ++---------
 src/common.h |  2 ++
 src/conn.c   | 99 +++++++++++++++++++++++++++++++++++++++++++---------
 src/event.c  |  1 +
 4 files changed, 88 insertions(+), 34 deletions(-)

diff --git a/src/auth.c b/src/auth.c
index f06ea04..ba26ddc 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -1293,25 +1293,11 @@ static void _sm_enable(xmpp_conn_t *conn)
     trigger_sm_callback(conn);
 }
 
-static void _sm_queue_resend(xmpp_conn_t *conn)
-{
-    xmpp_send_queue_t *e;
-    while ((e = pop_queue_front(&conn->sm_state->sm_queue))) {
-        /* Re-send what was already sent out and is still in the
-         * SM queue (i.e. it hasn't been ACK'ed by the server)
-         */
-        strophe_debug_verbose(2, conn->ctx, "conn", "SM_Q_RESEND: %p, h=%lu", e,
-                              e->sm_h);
-        send_raw(conn, e->data, e->len, e->owner, NULL);
-        strophe_free(conn->ctx, queue_element_free(conn->ctx, e));
-    }
-}
-
 /* a new session without stream management is established, there will be no
  * other chance to send what an earlier session left unacknowledged */
 static void _stream_negotiation_success_no_sm(xmpp_conn_t *conn)
 {
-    _sm_queue_resend(conn);
+    sm_queue_resend(conn);
     _stream_negotiation_success(conn);
 }
 
@@ -1496,7 +1482,7 @@ static int _handle_sm(xmpp_conn_t *const conn,
          * server doesn't remember all details of our session, but the `h` was
          * still available.
          */
-        _sm_queue_resend(conn);
+        sm_queue_resend(conn);
         trigger_sm_callback(conn);
         _stream_negotiation_success(conn);
     } else if (strcmp(name, "resumed") == 0 && s->resume) {
@@ -1529,7 +1515,7 @@ static int _handle_sm(xmpp_conn_t *const conn,
         sm_queue_cleanup(s, h);
         /* the next stanza we send is the one after those the server counted */
         s->sm_sent_nr = h;
-        _sm_queue_resend(conn);
+        sm_queue_resend(conn);
         trigger_sm_callback(conn);
         strophe_debug(conn->ctx, "xmpp", "Session resumed successfully.");
         _stream_negotiation_success(conn);
diff --git a/src/common.h b/src/common.h
index c81b2d7..9d30675 100644
--- a/src/common.h
+++ b/src/common.h
@@ -163,6 +163,7 @@ struct _xmpp_send_queue_t {
     xmpp_send_queue_owner_t owner;
     void *userdata;
     uint32_t sm_h;
+    int resend; /* has been sent, but not acknowledged, in the past */
 
     xmpp_send_queue_t *prev, *next;
 };
@@ -387,6 +388,7 @@ void handler_system_delete_all(xmpp_conn_t *conn);
 /* utility functions */
 void trigger_sm_callback(xmpp_conn_t *conn);
 void sm_queue_cleanup(xmpp_sm_state_t *sm_state, uint32_t h);
+void sm_queue_resend(xmpp_conn_t *conn);
 void reset_sm_state(xmpp_sm_state_t *sm_state);
 void disconnect_mem_error(xmpp_conn_t *conn);
 
diff --git a/src/conn.c b/src/conn.c
index a711f43..693f269 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -83,6 +83,8 @@ static int _is_connected(xmpp_conn_t *conn, xmpp_send_queue_owner_t owner);
 static int _disconnect_cleanup(xmpp_conn_t *conn, void *userdata);
 static int _conn_sm_state_init(xmpp_conn_t *conn);
 static void _reset_sm_state_for_reconnect(xmpp_conn_t *conn);
+static void _unlink_send_queue_element(xmpp_conn_t *conn, xmpp_send_queue_t *e);
+static char *_drop_send_queue_element(xmpp_conn_t *conn, xmpp_send_queue_t *e);
 static char *_conn_build_stream_tag(xmpp_conn_t *conn,
                                     char **attributes,
                                     size_t attributes_len);
@@ -124,6 +126,7 @@ static int _send_raw(xmpp_conn_t *conn,
                      size_t len,
                      xmpp_send_queue_owner_t owner,
                      void *userdata);
+static void _send_queue_add(xmpp_conn_t *conn, xmpp_send_queue_t *item);
 
 void xmpp_send_error(xmpp_conn_t *conn, xmpp_error_type_t type, char *text)
 {
@@ -1630,24 +1633,54 @@ void trigger_sm_callback(xmpp_conn_t *conn)
     strophe_free(conn->ctx, buf);
 }
 
+/* What had to be sent again, but has not been written before the connection
+ * was lost, is still not acknowledged. */
+static void _sm_queue_retain(xmpp_conn_t *conn)
+{
+    xmpp_sm_state_t *s = conn->sm_state;
+    xmpp_send_queue_t *e, *next;
+
+    for (e = conn->send_queue_head; e; e = next) {
+        next = e->next;
+        if (!e->resend)
+            continue;
+        /* a request for an acknowledgement that belongs to this element */
+        if (next && next->userdata == e) {
+            next = next->next;
+            strophe_free(conn->ctx, _drop_send_queue_element(conn, e->next));
+        }
+        _unlink_send_queue_element(conn, e);
+        e->wip = 0;
+        e->written = 0;
+        e->sm_h = s->sm_sent_nr++;
+        add_queue_back(&s->sm_queue, e);
+    }
+}
+
 static void _reset_sm_state_for_reconnect(xmpp_conn_t *conn)
 {
     xmpp_sm_state_t *s = conn->sm_state;
 
-    if (s->previd) {
-        strophe_free(conn->ctx, s->previd);
-        s->previd = NULL;
-    }
+    _sm_queue_retain(conn);
 
-    if (s->can_resume) {
+    if (s->can_resume && s->id) {
+        if (s->previd)
+            strophe_free(conn->ctx, s->previd);
         s->previd = s->id;
         s->id = NULL;
 
+        if (s->bound_jid)
+            strophe_free(conn->ctx, s->bound_jid);
         s->bound_jid = conn->bound_jid;
         conn->bound_jid = NULL;
-    } else if (s->id) {
-        strophe_free(conn->ctx, s->id);
-        s->id = NULL;
+    } else {
+        strophe_free_and_null(conn->ctx, s->id);
+        /* If no new session has been established on this connection, we can
+         * still try to resume the previous one. */
+        if (!s->can_resume) {
+            strophe_free_and_null(conn->ctx, s->previd);
+            strophe_free_and_null(conn->ctx, s->bound_jid);
+        }
     }
 
     s->r_sent = s->sm_enabled = s->sm_support = s->resume = 0;
@@ -1740,6 +1773,24 @@ void sm_queue_cleanup(xmpp_sm_state_t *sm_state, uint32_t h)
     }
 }
 
+/* queue what was already sent out and is still in the SM queue (i.e. it hasn't
+ * been ACK'ed by the server) again */
+void sm_queue_resend(xmpp_conn_t *conn)
+{
+    xmpp_send_queue_t *e;
+
+    if (conn->state != XMPP_STATE_CONNECTED)
+        return;
+
+    while ((e = pop_queue_front(&conn->sm_state->sm_queue))) {
+        strophe_debug_verbose(2, conn->ctx, "conn", "SM_Q_RESEND: %p, h=%lu", e,
+                              e->sm_h);
+        e->resend = 1;
+        e->userdata = NULL;
+        _send_queue_add(conn, e);
+    }
+}
+
 void reset_sm_state(xmpp_sm_state_t *sm_state)
 {
     xmpp_ctx_t *ctx = sm_state->ctx;
@@ -1794,7 +1845,7 @@ int xmpp_conn_send_queue_len(const xmpp_conn_t *conn)
         return conn->send_queue_user_len;
 }
 
-static char *_drop_send_queue_element(xmpp_conn_t *conn, xmpp_send_queue_t *e)
+static void _unlink_send_queue_element(xmpp_conn_t *conn, xmpp_send_queue_t *e)
 {
     if (e == conn->send_queue_head)
         conn->send_queue_head = e->next;
@@ -1809,6 +1860,11 @@ static char *_drop_send_queue_element(xmpp_conn_t *conn, xmpp_send_queue_t *e)
     conn->send_queue_len--;
     if (e->owner == XMPP_QUEUE_USER)
         conn->send_queue_user_len--;
+}
+
+static char *_drop_send_queue_element(xmpp_conn_t *conn, xmpp_send_queue_t *e)
+{
+    _unlink_send_queue_element(conn, e);
     return queue_element_free(conn->ctx, e);
 }
 
@@ -2086,7 +2142,8 @@ static void _handle_stream_end(char *name, void *userdata)
     /* stream is over */
     strophe_debug(conn->ctx, "xmpp", "RECV: </stream:stream>");
     /* the session has been terminated properly, i.e. it can't be resumed */
-    conn->sm_state->can_resume = 0;
+    if (conn->sm_state->sm_enabled)
+        conn->sm_state->can_resume = 0;
     trigger_sm_callback(conn);
     conn_disconnect_clean(conn);
 }
@@ -2431,7 +2488,6 @@ static int _send_raw(xmpp_conn_t *conn,
                      void *userdata)
 {
     xmpp_send_queue_t *item;
-    const char *req_ack = "<r xmlns='urn:xmpp:sm:3'/>";
 
     /* create send queue item for queue */
     item = strophe_alloc(conn->ctx, sizeof(xmpp_send_queue_t));
@@ -2443,12 +2499,22 @@ static int _send_raw(xmpp_conn_t *conn,
 
     item->data = data;
     item->len = len;
+    item->userdata = userdata;
+    item->owner = owner;
+    item->resend = 0;
+
+    _send_queue_add(conn, item);
+    return XMPP_EOK;
+}
+
+static void _send_queue_add(xmpp_conn_t *conn, xmpp_send_queue_t *item)
+{
+    const char *req_ack = "<r xmlns='urn:xmpp:sm:3'/>";
+
     item->next = NULL;
     item->prev = conn->send_queue_tail;
     item->written = 0;
     item->wip = 0;
-    item->userdata = userdata;
-    item->owner = owner;
 
     if (!conn->send_queue_tail) {
         /* first item, set head and tail */
@@ -2460,16 +2526,15 @@ static int _send_raw(xmpp_conn_t *conn,
         conn->send_queue_tail = item;
     }
     conn->send_queue_len++;
-    if (owner == XMPP_QUEUE_USER)
+    if (item->owner == XMPP_QUEUE_USER)
         conn->send_queue_user_len++;
-    strophe_debug_verbose(3, conn->ctx, "conn", "QUEUED: %s", data);
+    strophe_debug_verbose(3, conn->ctx, "conn", "QUEUED: %s", item->data);
     strophe_debug_verbose(1, conn->ctx, "conn", "Q_ADD: %p", item);
-    if (!(owner & XMPP_QUEUE_SM) && conn->sm_state->sm_enabled &&
+    if (!(item->owner & XMPP_QUEUE_SM) && conn->sm_state->sm_enabled &&
         !conn->sm_state->r_sent) {
         conn->sm_state->r_sent = 1;
         send_raw(conn, req_ack, strlen(req_ack), XMPP_QUEUE_SM_STROPHE, item);
     } else {
         trigger_sm_callback(conn);
     }
-    return XMPP_EOK;
 }
diff --git a/src/event.c b/src/event.c
index ca958eb..503c7fc 100644
--- a/src/event.c
+++ b/src/event.c
@@ -158,6 +158,7 @@ void xmpp_run_once(xmpp_ctx_t *ctx, unsigned long timeout)
                 conn->send_queue_user_len--;
             if (!(tsq->owner & XMPP_QUEUE_SM) && conn->sm_state->sm_enabled) {
                 tsq->sm_h = conn->sm_state->sm_sent_nr;
+                tsq->resend = 0;
                 conn->sm_state->sm_sent_nr++;
                 strophe_debug_verbose(1, ctx, "xmpp", "SM_Q_MOVE: %p, h=%lu",
                                       tsq, tsq->sm_h);
-- 
2.43.0


From 3931e156ef764bd752879c2c5c79085b8c59eb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:20 +0000
Subject: [PATCH 33/56] fix: restoring an invalid SM state reads beyond the
 buffer and leaves a broken connection, a restored session is never resumed

---
 src/conn.c | 144 ++++++++++++++++++++++++++++++++---------------------
 1 file changed, 86 insertions(+), 58 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index 693f269..a5b35aa 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -1335,6 +1335,11 @@ struct sm_restore {
 
 static int sm_load_u32(struct sm_restore *sm, uint8_t type, uint32_t *val)
 {
+    if (sm->state_end - sm->state < 5) {
+        strophe_error(sm->conn->ctx, "conn",
+                      "Provided sm_state data is too short");
+        return XMPP_EINVOP;
+    }
     if (*sm->state != type) {
         strophe_error(
             sm->conn->ctx, "conn",
@@ -1343,11 +1348,6 @@ static int sm_load_u32(struct sm_restore *sm, uint8_t type, uint32_t *val)
         return XMPP_EINVOP;
     }
     sm->state++;
-    if ((sm->state + 4) > sm->state_end) {
-        strophe_error(sm->conn->ctx, "conn",
-                      "Provided sm_state data is too short");
-        return XMPP_EINVOP;
-    }
     uint32_t v;
     memcpy(&v, sm->state, 4);
     sm->state += 4;
@@ -1361,7 +1361,7 @@ static int sm_load_string(struct sm_restore *sm, char **val, size_t *len)
     int ret = sm_load_u32(sm, 0x7a, &l);
     if (ret)
         return ret;
-    if ((sm->state + l) > sm->state_end) {
+    if (l > (size_t)(sm->state_end - sm->state)) {
         strophe_error(sm->conn->ctx, "conn",
                       "Provided sm_state data is too short");
         return XMPP_EINVOP;
@@ -1376,6 +1376,30 @@ static int sm_load_string(struct sm_restore *sm, char **val, size_t *len)
     return 0;
 }
 
+/* load an element of the send queue or, with a sequence number, of the SM queue
+ * and append it to `queue` */
+static int
+sm_load_item(struct sm_restore *sm, xmpp_queue_t *queue, int has_sequence_nr)
+{
+    int ret = 0;
+    xmpp_send_queue_t *item = strophe_alloc(sm->conn->ctx, sizeof(*item));
+    if (!item)
+        return XMPP_EMEM;
+    memset(item, 0, sizeof(*item));
+    item->owner = XMPP_QUEUE_USER;
+
+    if (has_sequence_nr)
+        ret = sm_load_u32(sm, 0x1a, &item->sm_h);
+    if (!ret)
+        ret = sm_load_string(sm, &item->data, &item->len);
+    if (ret) {
+        strophe_free(sm->conn->ctx, item);
+        return ret;
+    }
+    add_queue_back(queue, item);
+    return 0;
+}
+
 /**
  *  This restores the serialized Stream Management state
  *
@@ -1396,6 +1420,8 @@ int xmpp_conn_restore_sm_state(xmpp_conn_t *conn,
                                const unsigned char *sm_state,
                                size_t sm_state_len)
 {
+    xmpp_send_queue_t *item;
+
     /* We can only set the SM state when we're disconnected */
     if (conn->state != XMPP_STATE_DISCONNECTED) {
         strophe_error(conn->ctx, "conn",
@@ -1429,87 +1455,82 @@ int xmpp_conn_restore_sm_state(xmpp_conn_t *conn,
     }
     sm.state += 5;
 
-    conn->sm_state = strophe_alloc(conn->ctx, sizeof(*conn->sm_state));
-    if (!conn->sm_state)
+    xmpp_queue_t send_queue = {NULL, NULL};
+    xmpp_sm_state_t *state = strophe_alloc(conn->ctx, sizeof(*state));
+    if (!state)
         return XMPP_EMEM;
 
-    memset(conn->sm_state, 0, sizeof(*conn->sm_state));
-    conn->sm_state->ctx = conn->ctx;
+    memset(state, 0, sizeof(*state));
+    state->ctx = conn->ctx;
 
-    conn->sm_state->sm_support = 1;
-    conn->sm_state->sm_enabled = 1;
-    conn->sm_state->can_resume = 1;
-    conn->sm_state->resume = 1;
+    state->sm_support = 1;
+    state->sm_enabled = 1;
+    state->can_resume = 1;
+    state->resume = 1;
 
     int ret;
-    ret = sm_load_u32(&sm, 0x1a, &conn->sm_state->sm_sent_nr);
+    ret = sm_load_u32(&sm, 0x1a, &state->sm_sent_nr);
     if (ret)
         goto err_reload;
 
-    ret = sm_load_u32(&sm, 0x1a, &conn->sm_state->sm_handled_nr);
+    ret = sm_load_u32(&sm, 0x1a, &state->sm_handled_nr);
     if (ret)
         goto err_reload;
 
     size_t id_len;
-    ret = sm_load_string(&sm, &conn->sm_state->id, &id_len);
+    ret = sm_load_string(&sm, &state->id, &id_len);
     if (ret)
         goto err_reload;
+    if (strlen(state->id) != id_len) {
+        strophe_error(conn->ctx, "conn", "Invalid SM id in sm_state");
+        ret = XMPP_EINVOP;
+        goto err_reload;
+    }
 
-    uint32_t len, i;
-    ret = sm_load_u32(&sm, 0x9a, &len);
+    uint32_t send_len, len, i;
+    ret = sm_load_u32(&sm, 0x9a, &send_len);
     if (ret)
         goto err_reload;
-    conn->send_queue_user_len = conn->send_queue_len = len;
-    for (i = 0; i < len; i++) {
-        xmpp_send_queue_t *item = strophe_alloc(conn->ctx, sizeof(*item));
-        if (!item) {
-            ret = XMPP_EMEM;
-            goto err_reload;
-        }
-        memset(item, 0, sizeof(*item));
-
-        if (!conn->send_queue_tail) {
-            conn->send_queue_head = item;
-            conn->send_queue_tail = item;
-        } else {
-            conn->send_queue_tail->next = item;
-            conn->send_queue_tail = item;
-        }
-
-        ret = sm_load_string(&sm, &item->data, &item->len);
+    for (i = 0; i < send_len; i++) {
+        ret = sm_load_item(&sm, &send_queue, 0);
         if (ret)
             goto err_reload;
-
-        item->owner = XMPP_QUEUE_USER;
     }
 
     ret = sm_load_u32(&sm, 0xba, &len);
     if (ret)
         goto err_reload;
     for (i = 0; i < len; i++) {
-        xmpp_send_queue_t *item = strophe_alloc(conn->ctx, sizeof(*item));
-        if (!item) {
-            ret = XMPP_EMEM;
-            goto err_reload;
-        }
-        memset(item, 0, sizeof(*item));
-
-        add_queue_back(&conn->sm_state->sm_queue, item);
-
-        ret = sm_load_u32(&sm, 0x1a, &item->sm_h);
-        if (ret)
-            goto err_reload;
-        ret = sm_load_string(&sm, &item->data, &item->len);
+        ret = sm_load_item(&sm, &state->sm_queue, 1);
         if (ret)
             goto err_reload;
+    }
 
-        item->owner = XMPP_QUEUE_USER;
+    if (sm.state != sm.state_end) {
+        strophe_error(conn->ctx, "conn", "Provided sm_state data is too long");
+        ret = XMPP_EINVOP;
+        goto err_reload;
+    }
+
+    /* Everything's fine, now it can be put in place */
+    conn->sm_state = state;
+    if (send_queue.head) {
+        send_queue.head->prev = conn->send_queue_tail;
+        if (conn->send_queue_tail)
+            conn->send_queue_tail->next = send_queue.head;
+        else
+            conn->send_queue_head = send_queue.head;
+        conn->send_queue_tail = send_queue.tail;
+        conn->send_queue_len += send_len;
+        conn->send_queue_user_len += send_len;
     }
 
     return XMPP_EOK;
 
 err_reload:
-    xmpp_free_sm_state(conn->sm_state);
+    while ((item = pop_queue_front(&send_queue)))
+        strophe_free(conn->ctx, queue_element_free(conn->ctx, item));
+    xmpp_free_sm_state(state);
     return ret;
 }
 
@@ -1532,7 +1553,7 @@ static int sm_store_u32(unsigned char **next_,
 static size_t sm_state_serialize(xmpp_conn_t *conn, unsigned char **buf)
 {
     if (!conn->sm_state || !conn->sm_state->sm_support || !conn->sm_state->sm_enabled ||
-        !conn->sm_state->can_resume) {
+        !conn->sm_state->can_resume || !conn->sm_state->id) {
         *buf = NULL;
         return 0;
     }
@@ -1567,6 +1588,7 @@ static size_t sm_state_serialize(xmpp_conn_t *conn, unsigned char **buf)
     if (end < next) {
         strophe_error(conn->ctx, "conn",
                       "Internal error, pointer wrapped around");
+        strophe_free_and_null(conn->ctx, *buf);
         return 0;
     }
 
@@ -1618,7 +1640,7 @@ static size_t sm_state_serialize(xmpp_conn_t *conn, unsigned char **buf)
 
 err_serialize:
     strophe_error(conn->ctx, "conn", "Can't serialize more data, buffer full");
-    strophe_free(conn->ctx, buf);
+    strophe_free_and_null(conn->ctx, *buf);
     return 0;
 }
 
@@ -1630,7 +1652,8 @@ void trigger_sm_callback(xmpp_conn_t *conn)
     unsigned char *buf;
     size_t size = sm_state_serialize(conn, &buf);
     conn->sm_callback(conn, conn->sm_callback_ctx, buf, size);
-    strophe_free(conn->ctx, buf);
+    if (buf)
+        strophe_free(conn->ctx, buf);
 }
 
 /* What had to be sent again, but has not been written before the connection
@@ -2297,8 +2320,13 @@ static void _conn_reset(xmpp_conn_t *conn)
 /* every connected connection has a Stream Management state */
 static int _conn_sm_state_init(xmpp_conn_t *conn)
 {
-    if (conn->sm_state)
+    if (conn->sm_state) {
+        /* a restored state belongs to a session of an earlier connection */
+        if (conn->sm_state->sm_enabled &&
+            conn->state == XMPP_STATE_DISCONNECTED)
+            _reset_sm_state_for_reconnect(conn);
         return XMPP_EOK;
+    }
 
     conn->sm_state = strophe_alloc(conn->ctx, sizeof(*conn->sm_state));
     if (!conn->sm_state)
-- 
2.43.0


From 13c2cb81d4a5031cce70bd9ea4eab60a7344de36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:00 +0000
Subject: [PATCH 34/56] fix: the client waits forever after the compression
 setup has failed

---
 src/auth.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/auth.c b/src/auth.c
index ba26ddc..3618dfb 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -1115,6 +1115,9 @@ static int _handle_compress_result(xmpp_conn_t *const conn,
 
         /* send stream tag */
         conn_open_stream(conn);
+    } else {
+        strophe_error(conn->ctx, "xmpp", "Compression setup failed: %s", name);
+        xmpp_disconnect(conn);
     }
     return 0;
 }
-- 
2.43.0


From d1fa88333ba76f96901802ff2c9b5bae6d56a17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:11 +0000
Subject: [PATCH 35/56] fix: use after free when a handler deletes handlers
 while they are being fired, handlers added by an id handler see the current
 stanza

---
 src/common.h  |   4 +
 src/handler.c | 376 +++++++++++++++++++++++---------------------------
 2 files changed, 173 insertions(+), 207 deletions(-)

diff --git a/src/common.h b/src/common.h
index 9d30675..071e0bc 100644
--- a/src/common.h
+++ b/src/common.h
@@ -45,6 +45,7 @@ struct _xmpp_handlist_t {
     int enabled; /* handlers are added disabled and enabled after the
                   * handler chain is processed to prevent stanzas from
                   * getting processed by newly added handlers */
+    int deleted; /* items are not freed while handlers are being fired */
     xmpp_handlist_t *next;
 
     union {
@@ -88,6 +89,7 @@ struct _xmpp_ctx_t {
     xmpp_loop_status_t loop_status;
     xmpp_connlist_t *connlist;
     xmpp_handlist_t *timed_handlers;
+    int timed_handlers_firing;
 
     unsigned long timeout;
 };
@@ -330,6 +332,8 @@ struct _xmpp_conn_t {
     xmpp_handlist_t *timed_handlers;
     hash_t *id_handlers;
     xmpp_handlist_t *handlers;
+    int handlers_firing; /* nesting level of the functions that fire handlers */
+    int handlers_deleted; /* there are deleted handlers that are to be freed */
     xmpp_sockopt_callback sockopt_cb;
     xmpp_sm_callback sm_callback;
     void *sm_callback_ctx;
diff --git a/src/handler.c b/src/handler.c
index 851425f..703f5a9 100644
--- a/src/handler.c
+++ b/src/handler.c
@@ -25,23 +25,23 @@
 #include "common.h"
 #include "ostypes.h"
 
-/* Remove item from the list pointed by head, but don't free it.
- * There can be a situation when user's handler deletes another handler which
- * is the previous in the list. handler_fire_stanza() and handler_fire_timed()
- * must handle this situation correctly. Current function helps to avoid
- * list corruption in described scenario.
- *
- * TODO Convert handler lists to double-linked lists. Current implementation
- * works for O(n).
+/* A handler can delete any handler, also itself, while the handlers are being
+ * fired. In this case the item is only marked as deleted, such an item is
+ * skipped and gets freed as soon as no handler is being fired anymore.
  */
-static void _handler_item_remove(xmpp_handlist_t **head, xmpp_handlist_t *item)
+static void _handlist_purge(xmpp_ctx_t *ctx,
+                            xmpp_handlist_t **head,
+                            void (*item_free)(xmpp_ctx_t *, xmpp_handlist_t *))
 {
-    while (*head) {
-        if (*head == item) {
+    xmpp_handlist_t *item;
+
+    while ((item = *head)) {
+        if (item->deleted) {
             *head = item->next;
-            break;
+            item_free(ctx, item);
+        } else {
+            head = &item->next;
         }
-        head = &(*head)->next;
     }
 }
 
@@ -56,6 +56,70 @@ static void _free_handlist_item(xmpp_ctx_t *ctx, xmpp_handlist_t *item)
     strophe_free(ctx, item);
 }
 
+static void _free_id_handlist_item(xmpp_ctx_t *ctx, xmpp_handlist_t *item)
+{
+    strophe_free(ctx, item->u.id);
+    strophe_free(ctx, item);
+}
+
+static void _free_timed_handlist_item(xmpp_ctx_t *ctx, xmpp_handlist_t *item)
+{
+    strophe_free(ctx, item);
+}
+
+static void _id_handlers_purge(xmpp_conn_t *conn)
+{
+    xmpp_handlist_t *head;
+    hash_iterator_t *iter;
+    const char *key, *key2;
+
+    iter = hash_iter_new(conn->id_handlers);
+    key = iter == NULL ? NULL : hash_iter_next(iter);
+    while (key != NULL) {
+        head = (xmpp_handlist_t *)hash_get(conn->id_handlers, key);
+        _handlist_purge(conn->ctx, &head, _free_id_handlist_item);
+        /* Hash table implementation is not perfect, so we need to find next
+           key before dropping current one. Otherwise, we will get access to
+           freed memory. */
+        key2 = hash_iter_next(iter);
+        /* hash_add() replaces value if the key exists */
+        if (head != NULL)
+            hash_add(conn->id_handlers, key, head);
+        else
+            hash_drop(conn->id_handlers, key);
+        key = key2;
+    }
+    if (iter)
+        hash_iter_release(iter);
+}
+
+/* free all deleted handlers of the connection */
+static void _handlers_purge(xmpp_conn_t *conn)
+{
+    if (conn->handlers_firing || !conn->handlers_deleted)
+        return;
+
+    conn->handlers_deleted = 0;
+    _handlist_purge(conn->ctx, &conn->handlers, _free_handlist_item);
+    _handlist_purge(conn->ctx, &conn->timed_handlers,
+                    _free_timed_handlist_item);
+    _id_handlers_purge(conn);
+}
+
+static void _handler_delete(xmpp_conn_t *conn, xmpp_handlist_t *item)
+{
+    item->deleted = 1;
+    conn->handlers_deleted = 1;
+}
+
+/* don't fire user handlers until stream negotiation has completed
+   and skip newly added and deleted handlers */
+static int _handler_is_active(xmpp_conn_t *conn, xmpp_handlist_t *item)
+{
+    return item->enabled && !item->deleted &&
+           (!item->user_handler || conn->stream_negotiation_completed);
+}
+
 /** Fire off all stanza handlers that match.
  *  This function is called internally by the event loop whenever stanzas
  *  are received from the XMPP server.
@@ -65,43 +129,32 @@ static void _free_handlist_item(xmpp_ctx_t *ctx, xmpp_handlist_t *item)
  */
 void handler_fire_stanza(xmpp_conn_t *conn, xmpp_stanza_t *stanza)
 {
-    xmpp_handlist_t *item, *next, *head, *head_old;
+    xmpp_handlist_t *item, *head = NULL;
     const char *id, *ns, *name, *type;
     int ret;
 
-    /* call id handlers */
+    /* enable all added handlers, those that are added from now on must not see
+     * this stanza */
     id = xmpp_stanza_get_id(stanza);
     if (id) {
         head = (xmpp_handlist_t *)hash_get(conn->id_handlers, id);
-        /* enable all added handlers */
         for (item = head; item; item = item->next)
             item->enabled = 1;
+    }
+    for (item = conn->handlers; item; item = item->next)
+        item->enabled = 1;
 
-        item = head;
-        while (item) {
-            /* don't fire user handlers until stream negotiation has completed
-               and skip newly added handlers */
-            if ((item->user_handler && !conn->stream_negotiation_completed) ||
-                !item->enabled) {
-                item = item->next;
-                continue;
-            }
+    conn->handlers_firing++;
 
-            ret = ((xmpp_handler)(item->handler))(conn, stanza, item->userdata);
-            next = item->next;
-            if (!ret) {
-                /* handler is one-shot, so delete it */
-                head_old = head;
-                _handler_item_remove(&head, item);
-                if (head != head_old) {
-                    /* replace old value */
-                    hash_add(conn->id_handlers, id, head);
-                }
-                strophe_free(conn->ctx, item->u.id);
-                strophe_free(conn->ctx, item);
-            }
-            item = next;
-        }
+    /* call id handlers */
+    for (item = head; item; item = item->next) {
+        if (!_handler_is_active(conn, item))
+            continue;
+
+        ret = ((xmpp_handler)(item->handler))(conn, stanza, item->userdata);
+        /* handler is one-shot, so delete it */
+        if (!ret)
+            _handler_delete(conn, item);
     }
 
     /* call handlers */
@@ -109,37 +162,24 @@ void handler_fire_stanza(xmpp_conn_t *conn, xmpp_stanza_t *stanza)
     name = xmpp_stanza_get_name(stanza);
     type = xmpp_stanza_get_type(stanza);
 
-    /* enable all added handlers */
-    for (item = conn->handlers; item; item = item->next)
-        item->enabled = 1;
-
-    item = conn->handlers;
-    while (item) {
-        /* don't fire user handlers until stream negotiation has completed and
-           skip newly added handlers */
-        if ((item->user_handler && !conn->stream_negotiation_completed) ||
-            !item->enabled) {
-            item = item->next;
+    for (item = conn->handlers; item; item = item->next) {
+        if (!_handler_is_active(conn, item))
             continue;
-        }
 
-        next = item->next;
         if ((!item->u.ns || (ns && strcmp(ns, item->u.ns) == 0) ||
              xmpp_stanza_get_child_by_ns(stanza, item->u.ns)) &&
             (!item->u.name || (name && strcmp(name, item->u.name) == 0)) &&
             (!item->u.type || (type && strcmp(type, item->u.type) == 0))) {
 
             ret = ((xmpp_handler)(item->handler))(conn, stanza, item->userdata);
-            /* list may be changed during execution of a handler */
-            next = item->next;
-            if (!ret) {
-                /* handler is one-shot, so delete it */
-                _handler_item_remove(&conn->handlers, item);
-                _free_handlist_item(conn->ctx, item);
-            }
+            /* handler is one-shot, so delete it */
+            if (!ret)
+                _handler_delete(conn, item);
         }
-        item = next;
     }
+
+    conn->handlers_firing--;
+    _handlers_purge(conn);
 }
 
 /** Fire off all timed handlers that are ready.
@@ -152,7 +192,7 @@ void handler_fire_stanza(xmpp_conn_t *conn, xmpp_stanza_t *stanza)
 uint64_t handler_fire_timed(xmpp_ctx_t *ctx)
 {
     xmpp_connlist_t *connitem;
-    xmpp_handlist_t *item, *next;
+    xmpp_handlist_t *item;
     xmpp_conn_t *conn;
     uint64_t elapsed, min;
     uint64_t timestamp;
@@ -172,36 +212,28 @@ uint64_t handler_fire_timed(xmpp_ctx_t *ctx)
         for (item = conn->timed_handlers; item; item = item->next)
             item->enabled = 1;
 
-        item = conn->timed_handlers;
-        /* a handler can end the connection */
-        while (item && conn->state != XMPP_STATE_DISCONNECTED) {
-            /* don't fire user handlers until stream negotiation has completed
-               and skip newly added handlers */
-            if ((item->user_handler && !conn->stream_negotiation_completed) ||
-                !item->enabled) {
-                item = item->next;
+        conn->handlers_firing++;
+        for (item = conn->timed_handlers; item; item = item->next) {
+            /* a handler can end the connection */
+            if (conn->state == XMPP_STATE_DISCONNECTED)
+                break;
+            if (!_handler_is_active(conn, item))
                 continue;
-            }
 
-            next = item->next;
             timestamp = time_stamp();
             elapsed = time_elapsed(item->u.last_stamp, timestamp);
             if (elapsed >= item->u.period) {
                 /* fire! */
                 item->u.last_stamp = timestamp;
                 ret = ((xmpp_timed_handler)item->handler)(conn, item->userdata);
-                /* list may be changed during execution of a handler */
-                next = item->next;
-                if (!ret) {
-                    /* delete handler if it returned false */
-                    _handler_item_remove(&conn->timed_handlers, item);
-                    strophe_free(ctx, item);
-                }
+                /* delete handler if it returned false */
+                if (!ret)
+                    _handler_delete(conn, item);
             } else if (min > (item->u.period - elapsed))
                 min = item->u.period - elapsed;
-
-            item = next;
         }
+        conn->handlers_firing--;
+        _handlers_purge(conn);
 
         connitem = connitem->next;
     }
@@ -211,9 +243,11 @@ uint64_t handler_fire_timed(xmpp_ctx_t *ctx)
      * regardless of connections state.
      * TODO Reduce copy-paste.
      */
-    item = ctx->timed_handlers;
-    while (item) {
-        next = item->next;
+    ctx->timed_handlers_firing++;
+    for (item = ctx->timed_handlers; item; item = item->next) {
+        if (item->deleted)
+            continue;
+
         timestamp = time_stamp();
         elapsed = time_elapsed(item->u.last_stamp, timestamp);
         if (elapsed >= item->u.period) {
@@ -221,18 +255,14 @@ uint64_t handler_fire_timed(xmpp_ctx_t *ctx)
             item->u.last_stamp = timestamp;
             ret =
                 ((xmpp_global_timed_handler)item->handler)(ctx, item->userdata);
-            /* list may be changed during execution of a handler */
-            next = item->next;
-            if (!ret) {
-                /* delete handler if it returned false */
-                _handler_item_remove(&ctx->timed_handlers, item);
-                strophe_free(ctx, item);
-            }
+            /* delete handler if it returned false */
+            if (!ret)
+                item->deleted = 1;
         } else if (min > (item->u.period - elapsed))
             min = item->u.period - elapsed;
-
-        item = next;
     }
+    if (--ctx->timed_handlers_firing == 0)
+        _handlist_purge(ctx, &ctx->timed_handlers, _free_timed_handlist_item);
 
     return min;
 }
@@ -267,7 +297,8 @@ static void _timed_handler_add(xmpp_ctx_t *ctx,
 
     /* check if handler is already in the list */
     for (item = *handlers_list; item; item = item->next) {
-        if (item->handler == handler && item->userdata == userdata) {
+        if (!item->deleted && item->handler == handler &&
+            item->userdata == userdata) {
             strophe_warn(ctx, "xmpp", "Timed handler already exists.");
             break;
         }
@@ -284,6 +315,7 @@ static void _timed_handler_add(xmpp_ctx_t *ctx,
     item->handler = handler;
     item->userdata = userdata;
     item->enabled = 0;
+    item->deleted = 0;
 
     item->u.period = period;
     item->u.last_stamp = time_stamp();
@@ -293,23 +325,6 @@ static void _timed_handler_add(xmpp_ctx_t *ctx,
     *handlers_list = item;
 }
 
-static void _timed_handler_delete(xmpp_ctx_t *ctx,
-                                  xmpp_handlist_t **handlers_list,
-                                  xmpp_void_handler handler)
-{
-    xmpp_handlist_t *item;
-
-    while (*handlers_list) {
-        item = *handlers_list;
-        if (item->handler == handler) {
-            *handlers_list = item->next;
-            strophe_free(ctx, item);
-        } else {
-            handlers_list = &item->next;
-        }
-    }
-}
-
 /** Delete a timed handler.
  *
  *  @param conn a Strophe connection object
@@ -319,7 +334,12 @@ static void _timed_handler_delete(xmpp_ctx_t *ctx,
  */
 void xmpp_timed_handler_delete(xmpp_conn_t *conn, xmpp_timed_handler handler)
 {
-    _timed_handler_delete(conn->ctx, &conn->timed_handlers, handler);
+    xmpp_handlist_t *item;
+
+    for (item = conn->timed_handlers; item; item = item->next)
+        if (item->handler == (xmpp_void_handler)handler)
+            _handler_delete(conn, item);
+    _handlers_purge(conn);
 }
 
 static void _id_handler_add(xmpp_conn_t *conn,
@@ -333,7 +353,8 @@ static void _id_handler_add(xmpp_conn_t *conn,
     /* check if handler is already in the list */
     item = (xmpp_handlist_t *)hash_get(conn->id_handlers, id);
     while (item) {
-        if (item->handler == handler && item->userdata == userdata) {
+        if (!item->deleted && item->handler == handler &&
+            item->userdata == userdata) {
             strophe_warn(conn->ctx, "xmpp", "Id handler already exists.");
             break;
         }
@@ -351,6 +372,7 @@ static void _id_handler_add(xmpp_conn_t *conn,
     item->handler = handler;
     item->userdata = userdata;
     item->enabled = 0;
+    item->deleted = 0;
     item->next = NULL;
 
     item->u.id = strophe_strdup(conn->ctx, id);
@@ -382,32 +404,13 @@ void xmpp_id_handler_delete(xmpp_conn_t *conn,
                             xmpp_handler handler,
                             const char *id)
 {
-    xmpp_handlist_t *item, *prev, *next;
+    xmpp_handlist_t *item;
 
-    prev = NULL;
     item = (xmpp_handlist_t *)hash_get(conn->id_handlers, id);
-    if (!item)
-        return;
-
-    while (item) {
-        next = item->next;
-
-        if (item->handler == handler) {
-            if (prev)
-                prev->next = next;
-            else {
-                hash_drop(conn->id_handlers, id);
-                hash_add(conn->id_handlers, id, next);
-            }
-
-            strophe_free(conn->ctx, item->u.id);
-            strophe_free(conn->ctx, item);
-            item = next;
-        } else {
-            prev = item;
-            item = next;
-        }
-    }
+    for (; item; item = item->next)
+        if (item->handler == (xmpp_void_handler)handler)
+            _handler_delete(conn, item);
+    _handlers_purge(conn);
 }
 
 static int _dup_string(xmpp_ctx_t *ctx, const char *src, char **dest)
@@ -435,7 +438,8 @@ static void _handler_add(xmpp_conn_t *conn,
     for (item = conn->handlers; item; item = item->next) {
         /* same handler function can process different stanzas and
            distinguish them according to userdata. */
-        if (item->handler == handler && item->userdata == userdata) {
+        if (!item->deleted && item->handler == handler &&
+            item->userdata == userdata) {
             strophe_warn(conn->ctx, "xmpp", "Stanza handler already exists.");
             break;
         }
@@ -485,27 +489,12 @@ error_out:
  */
 void xmpp_handler_delete(xmpp_conn_t *conn, xmpp_handler handler)
 {
-    xmpp_handlist_t *prev, *item;
-
-    if (!conn->handlers)
-        return;
+    xmpp_handlist_t *item;
 
-    prev = NULL;
-    item = conn->handlers;
-    while (item) {
-        if (item->handler == handler) {
-            if (prev)
-                prev->next = item->next;
-            else
-                conn->handlers = item->next;
-
-            _free_handlist_item(conn->ctx, item);
-            item = prev ? prev->next : conn->handlers;
-        } else {
-            prev = item;
-            item = item->next;
-        }
-    }
+    for (item = conn->handlers; item; item = item->next)
+        if (item->handler == (xmpp_void_handler)handler)
+            _handler_delete(conn, item);
+    _handlers_purge(conn);
 }
 
 /** Add a timed handler.
@@ -652,64 +641,31 @@ void handler_add(xmpp_conn_t *conn,
  */
 void handler_system_delete_all(xmpp_conn_t *conn)
 {
-    xmpp_handlist_t *item, *next, *head, *head_old;
+    xmpp_handlist_t *item;
     hash_iterator_t *iter;
-    const char *key, *key2;
+    const char *key;
 
-    /* TODO unify all kinds of handlers and avoid copy-paste below */
-
-    item = conn->handlers;
-    while (item) {
-        if (!item->user_handler) {
-            next = item->next;
-            _handler_item_remove(&conn->handlers, item);
-            _free_handlist_item(conn->ctx, item);
-            item = next;
-        } else
-            item = item->next;
-    }
+    for (item = conn->handlers; item; item = item->next)
+        if (!item->user_handler)
+            _handler_delete(conn, item);
 
-    item = conn->timed_handlers;
-    while (item) {
-        if (!item->user_handler) {
-            next = item->next;
-            _handler_item_remove(&conn->timed_handlers, item);
-            strophe_free(conn->ctx, item);
-            item = next;
-        } else
-            item = item->next;
-    }
+    for (item = conn->timed_handlers; item; item = item->next)
+        if (!item->user_handler)
+            _handler_delete(conn, item);
 
     iter = hash_iter_new(conn->id_handlers);
     key = iter == NULL ? NULL : hash_iter_next(iter);
     while (key != NULL) {
-        head = head_old = (xmpp_handlist_t *)hash_get(conn->id_handlers, key);
-        item = head;
-        while (item) {
-            if (!item->user_handler) {
-                next = item->next;
-                _handler_item_remove(&head, item);
-                strophe_free(conn->ctx, item->u.id);
-                strophe_free(conn->ctx, item);
-                item = next;
-            } else
-                item = item->next;
-        }
-        /* Hash table implementation is not perfect, so we need to find next
-           key before dropping current one. Otherwise, we will get access to
-           freed memory. */
-        key2 = hash_iter_next(iter);
-        if (head != head_old) {
-            /* hash_add() replaces value if the key exists */
-            if (head != NULL)
-                hash_add(conn->id_handlers, key, head);
-            else
-                hash_drop(conn->id_handlers, key);
-        }
-        key = key2;
+        item = (xmpp_handlist_t *)hash_get(conn->id_handlers, key);
+        for (; item; item = item->next)
+            if (!item->user_handler)
+                _handler_delete(conn, item);
+        key = hash_iter_next(iter);
     }
     if (iter)
         hash_iter_release(iter);
+
+    _handlers_purge(conn);
 }
 
 /** Add a global timed handler.
@@ -759,5 +715,11 @@ void xmpp_global_timed_handler_add(xmpp_ctx_t *ctx,
 void xmpp_global_timed_handler_delete(xmpp_ctx_t *ctx,
                                       xmpp_global_timed_handler handler)
 {
-    _timed_handler_delete(ctx, &ctx->timed_handlers, handler);
+    xmpp_handlist_t *item;
+
+    for (item = ctx->timed_handlers; item; item = item->next)
+        if (item->handler == (xmpp_void_handler)handler)
+            item->deleted = 1;
+    if (!ctx->timed_handlers_firing)
+        _handlist_purge(ctx, &ctx->timed_handlers, _free_timed_handlist_item);
 }
-- 
2.43.0


From f65d619e894b45f445245cd1e5785f339acee30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:11 +0000
Subject: [PATCH 36/56] fix: global timed handlers are leaked when the context
 is freed

---
 src/ctx.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ctx.c b/src/ctx.c
index ef4dff1..d8829d9 100644
--- a/src/ctx.c
+++ b/src/ctx.c
@@ -497,6 +497,12 @@ xmpp_ctx_t *xmpp_ctx_new(const xmpp_mem_t *mem, const xmpp_log_t *log)
  */
 void xmpp_ctx_free(xmpp_ctx_t *ctx)
 {
+    xmpp_handlist_t *item;
+
+    while ((item = ctx->timed_handlers)) {
+        ctx->timed_handlers = item->next;
+        strophe_free(ctx, item);
+    }
     /* mem and log are owned by their suppliers */
     xmpp_rand_free(ctx, ctx->rand);
     strophe_free(ctx, ctx); /* pull the hole in after us */
-- 
2.43.0


From 2079675194f15c02eabda3c2ed6bd25acc1ee6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:48 +0000
Subject: [PATCH 37/56] fix: the TLS handshake blocks the event loop forever
 when the server falls silent

---
 src/tls_openssl.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/tls_openssl.c b/src/tls_openssl.c
index 641ca6c..d8ba244 100644
--- a/src/tls_openssl.c
+++ b/src/tls_openssl.c
@@ -32,6 +32,10 @@
 #include "common.h"
 #include "tls.h"
 #include "sock.h"
+#include "util.h"
+
+/* the handshake is given up after this time, in milliseconds */
+#define TLS_HANDSHAKE_TIMEOUT 15000
 
 /*
  * Redefine OPENSSL_VERSION_NUMBER for LibreSSL.
@@ -863,6 +867,7 @@ int tls_start(tls_t *tls)
     int error;
     int ret;
     long x509_res;
+    uint64_t start = time_stamp();
 
     /* Since we're non-blocking, loop the connect call until it
        succeeds or fails */
@@ -871,6 +876,12 @@ int tls_start(tls_t *tls)
         error = ret <= 0 ? SSL_get_error(tls->ssl, ret) : 0;
 
         if (ret == -1 && tls_is_recoverable(NULL, error)) {
+            /* don't wait forever for a peer that fell silent */
+            if (time_elapsed(start, time_stamp()) >= TLS_HANDSHAKE_TIMEOUT) {
+                strophe_error(tls->ctx, "tls", "TLS handshake timed out");
+                error = SSL_ERROR_SYSCALL;
+                break;
+            }
             /* wait for something to happen on the sock before looping back */
             _tls_sock_wait(tls, error);
             continue;
-- 
2.43.0


From 43e0944f65189678c4effc886cc0a29cb7aa5fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:48 +0000
Subject: [PATCH 38/56] fix: starting TLS twice leaks the first session

---
 src/conn.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/conn.c b/src/conn.c
index a5b35aa..48fefee 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -1132,8 +1132,13 @@ int conn_tls_start(xmpp_conn_t *conn)
 {
     int rc;
 
+    /* there can't be TLS within TLS */
+    if (conn->tls) {
+        strophe_error(conn->ctx, "conn", "TLS has already been started.");
+        return XMPP_EINVOP;
+    }
+
     if (conn->tls_disabled) {
-        conn->tls = NULL;
         rc = XMPP_EINVOP;
     } else {
         conn->tls = tls_new(conn);
-- 
2.43.0


From ea7ed39304c831dfefb6f2c8ccf5cfb280a59dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:07 +0000
Subject: [PATCH 39/56] fix: late replies to requests that have been given up
 continue the negotiation, the client authenticates again when features are
 missing after authentication

---
 src/auth.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/auth.c b/src/auth.c
index 3618dfb..4ba6963 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -90,6 +90,10 @@ static int _handle_scram_challenge(xmpp_conn_t *conn,
 struct scram_user_data;
 static int _make_scram_init_msg(struct scram_user_data *scram);
 
+static int
+_handle_features(xmpp_conn_t *conn, xmpp_stanza_t *stanza, void *userdata);
+static int
+_handle_legacy(xmpp_conn_t *conn, xmpp_stanza_t *stanza, void *userdata);
 static int _handle_missing_features_sasl(xmpp_conn_t *conn, void *userdata);
 static int _handle_missing_bind(xmpp_conn_t *conn, void *userdata);
 static int
@@ -202,6 +206,9 @@ static int _handle_missing_features(xmpp_conn_t *conn, void *userdata)
 
     strophe_debug(conn->ctx, "xmpp", "didn't get stream features");
 
+    /* it's too late for them now */
+    xmpp_handler_delete(conn, _handle_features);
+
     /* legacy auth will be attempted */
     _auth(conn);
 
@@ -974,6 +981,9 @@ static void _auth(xmpp_conn_t *conn)
 
 static void _stream_negotiation_success(xmpp_conn_t *conn)
 {
+    if (conn->stream_negotiation_completed && !conn->is_raw)
+        return;
+
     tls_clear_password_cache(conn);
     conn->stream_negotiation_completed = 1;
     /* call connection handler */
@@ -1033,7 +1043,8 @@ static void _handle_open_compress(xmpp_conn_t *conn)
     /* setup stream:features handlers */
     handler_add(conn, _handle_features_compress, XMPP_NS_STREAMS, "features",
                 NULL, NULL);
-    handler_add_timed(conn, _handle_missing_features, FEATURES_TIMEOUT, NULL);
+    handler_add_timed(conn, _handle_missing_features_sasl, FEATURES_TIMEOUT,
+                      NULL);
 }
 
 static int _do_bind(xmpp_conn_t *conn, xmpp_stanza_t *bind)
@@ -1131,7 +1142,7 @@ static int _handle_features_compress(xmpp_conn_t *conn,
     xmpp_stanza_t *child;
 
     /* remove missing features handler */
-    xmpp_timed_handler_delete(conn, _handle_missing_features);
+    xmpp_timed_handler_delete(conn, _handle_missing_features_sasl);
 
     /* check for compression */
     child = xmpp_stanza_get_child_by_name_and_ns(stanza, "compression",
@@ -1245,6 +1256,8 @@ static int _handle_missing_features_sasl(xmpp_conn_t *conn, void *userdata)
     strophe_error(conn->ctx, "xmpp",
                   "Did not receive stream features "
                   "after SASL authentication.");
+    xmpp_handler_delete(conn, _handle_features_sasl);
+    xmpp_handler_delete(conn, _handle_features_compress);
     xmpp_disconnect(conn);
     return 0;
 }
@@ -1366,6 +1379,7 @@ static int _handle_missing_bind(xmpp_conn_t *conn, void *userdata)
     UNUSED(userdata);
 
     strophe_error(conn->ctx, "xmpp", "Server did not reply to bind request.");
+    xmpp_id_handler_delete(conn, _handle_bind, "_xmpp_bind1");
     xmpp_disconnect(conn);
     return 0;
 }
@@ -1407,6 +1421,7 @@ static int _handle_missing_session(xmpp_conn_t *conn, void *userdata)
 
     strophe_error(conn->ctx, "xmpp",
                   "Server did not reply to session request.");
+    xmpp_id_handler_delete(conn, _handle_session, "_xmpp_session1");
     xmpp_disconnect(conn);
     return 0;
 }
@@ -1418,6 +1433,7 @@ static int _handle_missing_legacy(xmpp_conn_t *conn, void *userdata)
     strophe_error(conn->ctx, "xmpp",
                   "Server did not reply to legacy "
                   "authentication request.");
+    xmpp_id_handler_delete(conn, _handle_legacy, "_xmpp_auth1");
     xmpp_disconnect(conn);
     return 0;
 }
@@ -1808,6 +1824,7 @@ int _handle_missing_handshake(xmpp_conn_t *conn, void *userdata)
 
     strophe_error(conn->ctx, "xmpp",
                   "Server did not reply to handshake request.");
+    xmpp_handler_delete(conn, _handle_component_hs_response);
     xmpp_disconnect(conn);
     return 0;
 }
-- 
2.43.0


From afef9b43ec8c3a6dc60280069c01b314064ca8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:15 +0000
Subject: [PATCH 40/56] fix: stanzas that have to be sent again are missing in
 the unacknowledged part of the serialized SM state

---
 src/conn.c | 51 +++++++++++++++++++++++++++++++++++----------------
 1 file changed, 35 insertions(+), 16 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index 48fefee..d58e57b 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -1555,6 +1555,19 @@ static int sm_store_u32(unsigned char **next_,
     return 0;
 }
 
+static int sm_store_item(unsigned char **next,
+                         const unsigned char *const end,
+                         const xmpp_send_queue_t *item)
+{
+    if (sm_store_u32(next, end, 0x7a, (uint32_t)item->len))
+        return 1;
+    if (item->len > (size_t)(end - *next))
+        return 1;
+    memcpy(*next, item->data, item->len);
+    *next += item->len;
+    return 0;
+}
+
 static size_t sm_state_serialize(xmpp_conn_t *conn, unsigned char **buf)
 {
     if (!conn->sm_state || !conn->sm_state->sm_support || !conn->sm_state->sm_enabled ||
@@ -1573,14 +1586,23 @@ static size_t sm_state_serialize(xmpp_conn_t *conn, unsigned char **buf)
         peek = peek->next;
     }
 
+    /* what has to be sent again is still not acknowledged, c.f.
+     * _sm_queue_retain() */
     uint32_t send_queue_len = 0;
+    uint32_t resend_len = 0;
     size_t send_queue_size = 0;
     peek = conn->send_queue_head;
     while (peek) {
-        send_queue_len++;
-        send_queue_size += 5 + peek->len;
+        if (peek->resend) {
+            resend_len++;
+            sm_queue_size += 10 + peek->len;
+        } else {
+            send_queue_len++;
+            send_queue_size += 5 + peek->len;
+        }
         peek = peek->next;
     }
+    uint32_t sent_nr = conn->sm_state->sm_sent_nr;
 
     size_t buf_size =
         5 + 5 + 5 + 5 + id_len + 5 + send_queue_size + 5 + sm_queue_size;
@@ -1600,7 +1622,7 @@ static size_t sm_state_serialize(xmpp_conn_t *conn, unsigned char **buf)
     memcpy(next, "\x1a\x00\x00\x00\x00", 5); // Version
     next += 5;
 
-    if (sm_store_u32(&next, end, 0x1a, conn->sm_state->sm_sent_nr))
+    if (sm_store_u32(&next, end, 0x1a, sent_nr + resend_len))
         goto err_serialize;
     if (sm_store_u32(&next, end, 0x1a, conn->sm_state->sm_handled_nr))
         goto err_serialize;
@@ -1615,29 +1637,26 @@ static size_t sm_state_serialize(xmpp_conn_t *conn, unsigned char **buf)
 
     peek = conn->send_queue_head;
     while (peek) {
-        if (sm_store_u32(&next, end, 0x7a, (uint32_t)peek->len))
+        if (!peek->resend && sm_store_item(&next, end, peek))
             goto err_serialize;
-        if (next + peek->len > end)
-            goto err_serialize;
-        memcpy(next, peek->data, peek->len);
-        next += peek->len;
         peek = peek->next;
     }
 
-    if (sm_store_u32(&next, end, 0xba, sm_queue_len))
+    if (sm_store_u32(&next, end, 0xba, sm_queue_len + resend_len))
         goto err_serialize;
 
     peek = conn->sm_state->sm_queue.head;
     while (peek) {
-        if (sm_store_u32(&next, end, 0x1a, peek->sm_h))
-            goto err_serialize;
-
-        if (sm_store_u32(&next, end, 0x7a, (uint32_t)peek->len))
+        if (sm_store_u32(&next, end, 0x1a, peek->sm_h) ||
+            sm_store_item(&next, end, peek))
             goto err_serialize;
-        if (next + peek->len > end)
+        peek = peek->next;
+    }
+    peek = conn->send_queue_head;
+    while (peek) {
+        if (peek->resend && (sm_store_u32(&next, end, 0x1a, sent_nr++) ||
+                             sm_store_item(&next, end, peek)))
             goto err_serialize;
-        memcpy(next, peek->data, peek->len);
-        next += peek->len;
         peek = peek->next;
     }
 
-- 
2.43.0


From 99d95bbb6d2f38e55ee12e35541698739c4a81ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:52 +0000
Subject: [PATCH 41/56] fix: stream errors are counted as received stanzas by
 stream management

---
 src/conn.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/conn.c b/src/conn.c
index d58e57b..990cf22 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -2226,6 +2226,9 @@ static void _conn_sm_handle_stanza(xmpp_conn_t *const conn,
     uint32_t ack_h;
 
     ns = xmpp_stanza_get_ns(stanza);
+    /* elements of the stream itself, e.g. errors, are no stanzas */
+    if (ns && strcmp(ns, XMPP_NS_STREAMS) == 0)
+        return;
     if (ns && strcmp(ns, XMPP_NS_SM) != 0)
         ++conn->sm_state->sm_handled_nr;
     else {
-- 
2.43.0


From 496f4d65159b9d4b2cccbfca4a3274e3a8c6617c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:08 +0000
Subject: [PATCH 42/56] fix: accept linear white space in a DIGEST-MD5
 challenge

---
 src/sasl.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/sasl.c b/src/sasl.c
index b47862b..739b84b 100644
--- a/src/sasl.c
+++ b/src/sasl.c
@@ -145,8 +145,8 @@ static hash_t *_parse_digest_challenge(xmpp_ctx_t *ctx, const char *msg)
     if (result != NULL) {
         s = text;
         while (*s != '\0') {
-            /* skip any leading commas and spaces */
-            while ((*s == ',') || (*s == ' '))
+            /* skip any leading commas and linear white space */
+            while (*s != '\0' && strchr(", \t\r\n", *s) != NULL)
                 s++;
             /* accumulate a key ending at '=' */
             t = s;
@@ -178,7 +178,8 @@ static hash_t *_parse_digest_challenge(xmpp_ctx_t *ctx, const char *msg)
                 }
                 /* otherwise, accumulate a value ending in ',' or '\0' */
             } else {
-                while ((*t != ',') && (*t != '\0'))
+                /* a token also ends at white space */
+                while ((*t != '\0') && strchr(", \t\r\n", *t) == NULL)
                     t++;
                 value = _make_string(ctx, (char *)s, (t - s));
                 s = t;
-- 
2.43.0


From 51d8b9a9e3756ae5da73b428b64115a5e4b73f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:13 +0000
Subject: [PATCH 43/56] fix: don't send in the clear after a failed TLS
 handshake

---
 src/event.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/event.c b/src/event.c
index 503c7fc..4c115bd 100644
--- a/src/event.c
+++ b/src/event.c
@@ -117,6 +117,15 @@ void xmpp_run_once(xmpp_ctx_t *ctx, unsigned long timeout)
         }
         intf = &conn->intf;
 
+        /* a failed TLS handshake spoils the connection, don't go on sending
+         * in the clear */
+        if (conn->tls_failed) {
+            strophe_debug(ctx, "xmpp", "TLS failed, disconnecting.");
+            conn->error = ECONNABORTED;
+            conn_disconnect(conn);
+            goto next_item;
+        }
+
         /* if we're running tls, there may be some remaining data waiting to
          * be sent, so push that out */
         if (conn->tls) {
-- 
2.43.0


From a205184647cfbea0010436ab9764b83139783d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:13 +0000
Subject: [PATCH 44/56] fix: line breaks and tabs in attributes and carriage
 returns in text do not survive rendering and parsing

---
 src/stanza.c | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/stanza.c b/src/stanza.c
index 6c6d6df..a4ef8fc 100644
--- a/src/stanza.c
+++ b/src/stanza.c
@@ -238,7 +238,7 @@ int xmpp_stanza_is_tag(xmpp_stanza_t *stanza)
  * On failure, returns NULL.
  */
 
-static char *_escape_xml(xmpp_ctx_t *ctx, char *text)
+static char *_escape_xml(xmpp_ctx_t *ctx, char *text, int is_attr)
 {
     size_t len = 0;
     char *src;
@@ -256,6 +256,13 @@ static char *_escape_xml(xmpp_ctx_t *ctx, char *text)
         case '"':
             len += 6; /*"&quot;" */
             break;
+        case '\r': /* "&#xD;" */
+            len += 5;
+            break;
+        case '\t': /* "&#x9;" */
+        case '\n': /* "&#xA;" */
+            len += is_attr ? 5 : 1;
+            break;
         default:
             len++;
         }
@@ -281,6 +288,20 @@ static char *_escape_xml(xmpp_ctx_t *ctx, char *text)
             strcpy(dst, "&quot;");
             dst += 6;
             break;
+        case '\r':
+            /* a parser would turn it into a line feed */
+            strcpy(dst, "&#xD;");
+            dst += 5;
+            break;
+        case '\t':
+        case '\n':
+            /* a parser would turn it into a space */
+            if (is_attr) {
+                strcpy(dst, *src == '\t' ? "&#x9;" : "&#xA;");
+                dst += 5;
+                break;
+            }
+            /* fall through */
         default:
             *dst = *src;
             dst++;
@@ -330,7 +351,7 @@ _render_stanza_recursive(xmpp_stanza_t *stanza, char *buf, size_t buflen)
         if (!stanza->data)
             return XMPP_EINVOP;
 
-        tmp = _escape_xml(stanza->ctx, stanza->data);
+        tmp = _escape_xml(stanza->ctx, stanza->data, 0);
         if (tmp == NULL)
             return XMPP_EMEM;
         ret = strophe_snprintf(ptr, left, "%s", tmp);
@@ -366,7 +387,7 @@ _render_stanza_recursive(xmpp_stanza_t *stanza, char *buf, size_t buflen)
                         continue;
                 }
                 tmp = _escape_xml(stanza->ctx,
-                                  (char *)hash_get(stanza->attributes, key));
+                                  (char *)hash_get(stanza->attributes, key), 1);
                 if (tmp == NULL) {
                     hash_iter_release(iter);
                     return XMPP_EMEM;
-- 
2.43.0


From 96d2c47a5acbb004639b9caf2b39e50853792d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:13 +0000
Subject: [PATCH 45/56] fix: xmpp_error_new makes xml-not-well-formed, which is
 not a condition of RFC 6120

---
 src/stanza.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stanza.c b/src/stanza.c
index a4ef8fc..2d368c7 100644
--- a/src/stanza.c
+++ b/src/stanza.c
@@ -1614,7 +1614,7 @@ xmpp_error_new(xmpp_ctx_t *ctx, xmpp_error_type_t type, const char *text)
         xmpp_stanza_set_name(error_type, "unsupported-version");
         break;
     case XMPP_SE_XML_NOT_WELL_FORMED:
-        xmpp_stanza_set_name(error_type, "xml-not-well-formed");
+        xmpp_stanza_set_name(error_type, "not-well-formed");
         break;
     default:
         xmpp_stanza_set_name(error_type, "internal-server-error");
-- 
2.43.0


From 8b9a93b3e099499ce4a73b0fd6e73a2a9d37a166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:47 +0000
Subject: [PATCH 46/56] fix: rendering a part of a stanza drops its namespace
 when the parent has the same

---
 src/stanza.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/stanza.c b/src/stanza.c
index 2d368c7..ec06a17 100644
--- a/src/stanza.c
+++ b/src/stanza.c
@@ -331,8 +331,10 @@ static void _render_update(
  * return values < 0 indicate some error occurred,
  * and return values > buflen indicate buffer was not large enough
  */
-static int
-_render_stanza_recursive(xmpp_stanza_t *stanza, char *buf, size_t buflen)
+static int _render_stanza_recursive(xmpp_stanza_t *stanza,
+                                    char *buf,
+                                    size_t buflen,
+                                    int is_top)
 {
     char *ptr = buf;
     size_t left = buflen;
@@ -373,8 +375,10 @@ _render_stanza_recursive(xmpp_stanza_t *stanza, char *buf, size_t buflen)
             iter = hash_iter_new(stanza->attributes);
             while ((key = hash_iter_next(iter))) {
                 if (!strcmp(key, "xmlns")) {
-                    /* don't output namespace if parent stanza is the same */
-                    if (stanza->parent && stanza->parent->attributes &&
+                    /* don't output namespace if parent stanza is the same and
+                     * is part of the output */
+                    if (!is_top && stanza->parent &&
+                        stanza->parent->attributes &&
                         hash_get(stanza->parent->attributes, key) &&
                         !strcmp(
                             (char *)hash_get(stanza->attributes, key),
@@ -421,7 +425,7 @@ _render_stanza_recursive(xmpp_stanza_t *stanza, char *buf, size_t buflen)
             /* iterate and recurse over child stanzas */
             child = stanza->children;
             while (child) {
-                ret = _render_stanza_recursive(child, ptr, left);
+                ret = _render_stanza_recursive(child, ptr, left, 0);
                 if (ret < 0)
                     return ret;
 
@@ -472,7 +476,7 @@ int xmpp_stanza_to_text(xmpp_stanza_t *stanza, char **buf, size_t *buflen)
         return XMPP_EMEM;
     }
 
-    ret = _render_stanza_recursive(stanza, buffer, length);
+    ret = _render_stanza_recursive(stanza, buffer, length, 1);
     if (ret < 0) {
         strophe_free(stanza->ctx, buffer);
         *buf = NULL;
@@ -491,7 +495,7 @@ int xmpp_stanza_to_text(xmpp_stanza_t *stanza, char **buf, size_t *buflen)
         length = ret + 1;
         buffer = tmp;
 
-        ret = _render_stanza_recursive(stanza, buffer, length);
+        ret = _render_stanza_recursive(stanza, buffer, length, 1);
         if ((size_t)ret > length - 1) {
             strophe_free(stanza->ctx, buffer);
             *buf = NULL;
-- 
2.43.0


From 8f59b5845bf31b9bc2a6aca370a291befa4188c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:47 +0000
Subject: [PATCH 47/56] fix: a child that outlives its parent refers to freed
 memory

---
 src/stanza.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/stanza.c b/src/stanza.c
index ec06a17..360efa5 100644
--- a/src/stanza.c
+++ b/src/stanza.c
@@ -178,7 +178,10 @@ int xmpp_stanza_release(xmpp_stanza_t *stanza)
         while (child) {
             tchild = child;
             child = child->next;
+            /* somebody else can hold a reference to the child */
             tchild->next = NULL;
+            tchild->prev = NULL;
+            tchild->parent = NULL;
             xmpp_stanza_release(tchild);
         }
 
-- 
2.43.0


From d554fae0c6b59fddb0aec8ffac4d9e1e6aa1e78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:47 +0000
Subject: [PATCH 48/56] fix: setting the text or name of a stanza to a part of
 itself uses freed memory

---
 src/stanza.c | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/stanza.c b/src/stanza.c
index 360efa5..ef3f8e4 100644
--- a/src/stanza.c
+++ b/src/stanza.c
@@ -527,14 +527,16 @@ int xmpp_stanza_to_text(xmpp_stanza_t *stanza, char **buf, size_t *buflen)
  */
 int xmpp_stanza_set_name(xmpp_stanza_t *stanza, const char *name)
 {
+    char *old = stanza->data;
+
     if (stanza->type == XMPP_STANZA_TEXT)
         return XMPP_EINVOP;
 
-    if (stanza->data)
-        strophe_free(stanza->ctx, stanza->data);
-
+    /* name can be a part of the old name */
     stanza->type = XMPP_STANZA_TAG;
     stanza->data = strophe_strdup(stanza->ctx, name);
+    if (old)
+        strophe_free(stanza->ctx, old);
 
     return stanza->data == NULL ? XMPP_EMEM : XMPP_EOK;
 }
@@ -747,14 +749,16 @@ int xmpp_stanza_add_child(xmpp_stanza_t *stanza, xmpp_stanza_t *child)
  */
 int xmpp_stanza_set_text(xmpp_stanza_t *stanza, const char *text)
 {
+    char *old = stanza->data;
+
     if (stanza->type == XMPP_STANZA_TAG)
         return XMPP_EINVOP;
 
+    /* text can be a part of the old text */
     stanza->type = XMPP_STANZA_TEXT;
-
-    if (stanza->data)
-        strophe_free(stanza->ctx, stanza->data);
     stanza->data = strophe_strdup(stanza->ctx, text);
+    if (old)
+        strophe_free(stanza->ctx, old);
 
     return stanza->data == NULL ? XMPP_EMEM : XMPP_EOK;
 }
@@ -777,21 +781,22 @@ int xmpp_stanza_set_text_with_size(xmpp_stanza_t *stanza,
                                    const char *text,
                                    size_t size)
 {
+    char *old = stanza->data;
+
     if (stanza->type == XMPP_STANZA_TAG)
         return XMPP_EINVOP;
 
+    /* text can be a part of the old text */
     stanza->type = XMPP_STANZA_TEXT;
-
-    if (stanza->data)
-        strophe_free(stanza->ctx, stanza->data);
     stanza->data = strophe_alloc(stanza->ctx, size + 1);
-    if (!stanza->data)
-        return XMPP_EMEM;
-
-    memcpy(stanza->data, text, size);
-    stanza->data[size] = 0;
+    if (stanza->data) {
+        memcpy(stanza->data, text, size);
+        stanza->data[size] = 0;
+    }
+    if (old)
+        strophe_free(stanza->ctx, old);
 
-    return XMPP_EOK;
+    return stanza->data == NULL ? XMPP_EMEM : XMPP_EOK;
 }
 
 /** Get the 'id' attribute of the stanza object.
-- 
2.43.0


From acb15dfb317978efdca10957cac0be7e03b729bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:02 +0000
Subject: [PATCH 49/56] fix: the remaining SRV targets are not tried after one
 that can't be resolved

---
 src/sock.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sock.c b/src/sock.c
index 90b0431..85881f6 100644
--- a/src/sock.c
+++ b/src/sock.c
@@ -212,10 +212,10 @@ sock_t sock_connect(xmpp_sock_t *xsock)
     char buf[64];
 
     do {
-        if (!xsock->ainfo_cur) {
+        /* proceed to the next target that can be resolved */
+        while (!xsock->ainfo_cur && xsock->srv_rr_cur) {
             sock_getaddrinfo(xsock);
-            if (xsock->srv_rr_cur)
-                xsock->srv_rr_cur = xsock->srv_rr_cur->next;
+            xsock->srv_rr_cur = xsock->srv_rr_cur->next;
         }
         if (!xsock->ainfo_cur) {
             /* We tried all available addresses. */
-- 
2.43.0


From 533ff30f6cdb46e5d0d895932b6748b1753a3bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:03 +0000
Subject: [PATCH 50/56] fix: a stanza that is no iq is taken for the reply to
 the bind or session request

---
 src/auth.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/auth.c b/src/auth.c
index 4ba6963..6c44414 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -1321,6 +1321,7 @@ static int
 _handle_bind(xmpp_conn_t *conn, xmpp_stanza_t *stanza, void *userdata)
 {
     const char *type;
+    const char *name;
     xmpp_stanza_t *binding, *jid_stanza;
 
     UNUSED(userdata);
@@ -1330,7 +1331,13 @@ _handle_bind(xmpp_conn_t *conn, xmpp_stanza_t *stanza, void *userdata)
 
     /* server has replied to bind request */
     type = xmpp_stanza_get_type(stanza);
-    if (type && strcmp(type, "error") == 0) {
+    name = xmpp_stanza_get_name(stanza);
+    if (strcmp(name, "iq") != 0) {
+        strophe_error(conn->ctx, "xmpp",
+                      "Server sent us an unexpected response "
+                      "to bind request.");
+        xmpp_disconnect(conn);
+    } else if (type && strcmp(type, "error") == 0) {
         strophe_error(conn->ctx, "xmpp", "Binding failed.");
         xmpp_disconnect(conn);
     } else if (type && strcmp(type, "result") == 0) {
@@ -1388,6 +1395,7 @@ static int
 _handle_session(xmpp_conn_t *conn, xmpp_stanza_t *stanza, void *userdata)
 {
     const char *type;
+    const char *name;
 
     UNUSED(userdata);
 
@@ -1396,7 +1404,13 @@ _handle_session(xmpp_conn_t *conn, xmpp_stanza_t *stanza, void *userdata)
 
     /* server has replied to the session request */
     type = xmpp_stanza_get_type(stanza);
-    if (type && strcmp(type, "error") == 0) {
+    name = xmpp_stanza_get_name(stanza);
+    if (strcmp(name, "iq") != 0) {
+        strophe_error(conn->ctx, "xmpp",
+                      "Server sent us an unexpected response "
+                      "to session request.");
+        xmpp_disconnect(conn);
+    } else if (type && strcmp(type, "error") == 0) {
         strophe_error(conn->ctx, "xmpp", "Session establishment failed.");
         xmpp_disconnect(conn);
     } else if (type && strcmp(type, "result") == 0) {
-- 
2.43.0


From 50f2904f477213abcd0c1f1c7ba9058c203fb789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:33 +0000
Subject: [PATCH 51/56] fix: a connection established while the loop is not
 running is given up as timed out

---
 src/event.c |  6 ++++--
 src/sock.c  | 14 ++++++++++++++
 src/sock.h  |  1 +
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/event.c b/src/event.c
index 4c115bd..fe1d21a 100644
--- a/src/event.c
+++ b/src/event.c
@@ -235,9 +235,11 @@ next_item:
             /* connect has been called and we're waiting for it to complete */
             /* connection will give us write or error events */
 
-            /* make sure the timeout hasn't expired */
+            /* make sure the timeout hasn't expired, an attempt that has been
+             * completed while the loop wasn't running is not given up */
             if (time_elapsed(conn->timeout_stamp, time_stamp()) <=
-                conn->connect_timeout)
+                    conn->connect_timeout ||
+                sock_connect_done(conn->sock))
                 FD_SET(conn->sock, &wfds);
             else {
                 strophe_info(ctx, "xmpp", "Connection attempt timed out.");
diff --git a/src/sock.c b/src/sock.c
index 85881f6..feff712 100644
--- a/src/sock.c
+++ b/src/sock.c
@@ -28,6 +28,7 @@
 #include <arpa/inet.h>
 #include <errno.h>
 #include <unistd.h>
+#include <sys/select.h>
 #include <sys/socket.h>
 #include <netinet/in.h>
 #include <netinet/tcp.h>
@@ -412,6 +413,19 @@ int sock_is_recoverable(struct conn_interface *intf, int error)
 #endif
 }
 
+/* Returns non-zero if a connection attempt is not in progress any more. */
+int sock_connect_done(sock_t sock)
+{
+    fd_set wfds;
+    struct timeval tv;
+
+    FD_ZERO(&wfds);
+    FD_SET(sock, &wfds);
+    tv.tv_sec = tv.tv_usec = 0;
+
+    return select((int)(sock + 1), NULL, &wfds, NULL, &tv) > 0;
+}
+
 int sock_connect_error(sock_t sock)
 {
     struct sockaddr_storage ss;
diff --git a/src/sock.h b/src/sock.h
index 096ad9e..ccf1d80 100644
--- a/src/sock.h
+++ b/src/sock.h
@@ -53,6 +53,7 @@ int sock_read(struct conn_interface *intf, void *buff, size_t len);
 int sock_write(struct conn_interface *intf, const void *buff, size_t len);
 int sock_is_recoverable(struct conn_interface *intf, int error);
 /* checks for an error after connect, return 0 if connect successful */
+int sock_connect_done(sock_t sock);
 int sock_connect_error(sock_t sock);
 int sock_set_keepalive(sock_t sock,
                        int timeout,
-- 
2.43.0


From 4a351f8b7e8bc60efc94b23ad733e6c02d40180b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:44 +0000
Subject: [PATCH 52/56] fix: a peer that has gone must not raise SIGPIPE in
 sock_write

---
 src/sock.c | 2 +-
 src/sock.h | 8 ++++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/sock.c b/src/sock.c
index feff712..d667f99 100644
--- a/src/sock.c
+++ b/src/sock.c
@@ -399,7 +399,7 @@ int sock_read(struct conn_interface *intf, void *buff, size_t len)
 
 int sock_write(struct conn_interface *intf, const void *buff, size_t len)
 {
-    return send(intf->conn->sock, buff, len, 0);
+    return send(intf->conn->sock, buff, len, SOCK_SEND_FLAGS);
 }
 
 int sock_is_recoverable(struct conn_interface *intf, int error)
diff --git a/src/sock.h b/src/sock.h
index ccf1d80..d1f5dc7 100644
--- a/src/sock.h
+++ b/src/sock.h
@@ -20,6 +20,7 @@
 #include <stdio.h>
 
 #ifndef _WIN32
+#include <sys/socket.h> /* MSG_NOSIGNAL */
 typedef int sock_t;
 #define INVALID_SOCKET (-1)
 #else
@@ -32,6 +33,13 @@ typedef SOCKET sock_t;
 
 extern const struct conn_interface sock_intf;
 
+/* a peer that has gone is reported by the return value, not by SIGPIPE */
+#ifdef MSG_NOSIGNAL
+#define SOCK_SEND_FLAGS MSG_NOSIGNAL
+#else
+#define SOCK_SEND_FLAGS 0
+#endif
+
 typedef struct _xmpp_sock_t xmpp_sock_t;
 
 void sock_initialize(void);
-- 
2.43.0


From ae36bfca05162664fa97938b3d95c0fa1324d79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:45 +0000
Subject: [PATCH 53/56] fix: a peer that has gone must not raise SIGPIPE under
 TLS

---
 src/tls_openssl.c | 54 ++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 53 insertions(+), 1 deletion(-)

diff --git a/src/tls_openssl.c b/src/tls_openssl.c
index d8ba244..dc5a70f 100644
--- a/src/tls_openssl.c
+++ b/src/tls_openssl.c
@@ -112,6 +112,9 @@ struct _tls {
     sock_t sock;
     SSL_CTX *ssl_ctx;
     SSL *ssl;
+#if OPENSSL_VERSION_NUMBER >= 0x10100000L
+    BIO_METHOD *bio_method;
+#endif
     X509 *client_cert;
     void *channel_binding_data;
     size_t channel_binding_size;
@@ -593,6 +596,52 @@ static void _try_open_keylogfile(tls_t *tls)
 #endif
 }
 
+#if OPENSSL_VERSION_NUMBER >= 0x10100000L
+static int _sock_bio_write(BIO *bio, const char *buf, int len)
+{
+    int ret;
+    sock_t sock = (sock_t)BIO_get_fd(bio, NULL);
+
+    ret = send(sock, buf, len, SOCK_SEND_FLAGS);
+    BIO_clear_retry_flags(bio);
+    if (ret <= 0 && BIO_sock_should_retry(ret))
+        BIO_set_retry_write(bio);
+    return ret;
+}
+
+/* OpenSSL's own socket BIO raises SIGPIPE when the peer has gone */
+static int _tls_set_sock(tls_t *tls)
+{
+    const BIO_METHOD *orig = BIO_s_socket();
+    BIO *bio;
+
+    tls->bio_method = BIO_meth_new(BIO_TYPE_SOCKET, "libstrophe socket");
+    if (!tls->bio_method)
+        return 0;
+    BIO_meth_set_write(tls->bio_method, _sock_bio_write);
+    BIO_meth_set_read(tls->bio_method, BIO_meth_get_read(orig));
+    BIO_meth_set_puts(tls->bio_method, BIO_meth_get_puts(orig));
+    BIO_meth_set_ctrl(tls->bio_method, BIO_meth_get_ctrl(orig));
+    BIO_meth_set_create(tls->bio_method, BIO_meth_get_create(orig));
+    BIO_meth_set_destroy(tls->bio_method, BIO_meth_get_destroy(orig));
+
+    bio = BIO_new(tls->bio_method);
+    if (!bio) {
+        BIO_meth_free(tls->bio_method);
+        tls->bio_method = NULL;
+        return 0;
+    }
+    BIO_set_fd(bio, tls->sock, BIO_NOCLOSE);
+    SSL_set_bio(tls->ssl, bio, bio);
+    return 1;
+}
+#else
+static int _tls_set_sock(tls_t *tls)
+{
+    return SSL_set_fd(tls->ssl, tls->sock);
+}
+#endif
+
 tls_t *tls_new(xmpp_conn_t *conn)
 {
     tls_t *tls = strophe_alloc(conn->ctx, sizeof(*tls));
@@ -733,7 +782,7 @@ tls_t *tls_new(xmpp_conn_t *conn)
         X509_VERIFY_PARAM_set1_host(param, conn->domain, 0);
 #endif
 
-        ret = SSL_set_fd(tls->ssl, conn->sock);
+        ret = _tls_set_sock(tls);
         if (ret <= 0)
             goto err_free_ssl;
 
@@ -760,6 +809,9 @@ void tls_free(tls_t *tls)
         fclose(tls->keylogfile);
     strophe_free(tls->ctx, tls->channel_binding_data);
     SSL_free(tls->ssl);
+#if OPENSSL_VERSION_NUMBER >= 0x10100000L
+    BIO_meth_free(tls->bio_method);
+#endif
     X509_free(tls->client_cert);
     SSL_CTX_free(tls->ssl_ctx);
     strophe_free(tls->ctx, tls);
-- 
2.43.0


From a8beca36e387ef74099703531de31de36f7ba072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:22 +0000
Subject: [PATCH 54/56] fix: a prefixed attribute named xmlns is not the
 namespace

---
 src/parser_expat.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser_expat.c b/src/parser_expat.c
index ff3fe67..90c66fb 100644
--- a/src/parser_expat.c
+++ b/src/parser_expat.c
@@ -142,7 +142,10 @@ static void _set_attributes(xmpp_stanza_t *stanza, const XML_Char **attrs)
     for (i = 0; attrs[i]; i += 2) {
         /* namespaced attributes aren't used in xmpp, discard namespace */
         attr = _xml_name(stanza->ctx, attrs[i]);
-        xmpp_stanza_set_attribute(stanza, attr, attrs[i + 1]);
+        /* declarations aren't reported, this is some other attribute with the
+         * local name xmlns, it mustn't become the stanza's namespace */
+        if (attr && strcmp(attr, "xmlns") != 0)
+            xmpp_stanza_set_attribute(stanza, attr, attrs[i + 1]);
         strophe_free(stanza->ctx, attr);
     }
 }
-- 
2.43.0


From 60b7ce6d8aa4913b2d5e4791ceebab38f422e15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:22 +0000
Subject: [PATCH 55/56] fix: refuse a JID whose domain no certificate can be
 checked against

---
 src/conn.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/conn.c b/src/conn.c
index 990cf22..e611703 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -716,6 +716,14 @@ static int _connect_client(xmpp_conn_t *conn,
     if (!domain)
         return XMPP_EMEM;
 
+    /* A server certificate can't be checked against such a name: OpenSSL skips
+     * the check for an empty one and takes a leading dot for any subdomain. */
+    if (*domain == '\0' || *domain == '.') {
+        strophe_error(conn->ctx, "xmpp", "JID doesn't contain a valid domain.");
+        strophe_free(conn->ctx, domain);
+        return XMPP_EINVOP;
+    }
+
     if (_conn_sm_state_init(conn) != XMPP_EOK)
         goto err_mem;
 
-- 
2.43.0


From 431137276e4200f9b44fdc8daaff2a11a98cbcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:22 +0000
Subject: [PATCH 56/56] fix: SCRAM challenges with a foreign nonce or a
 mandatory extension are answered

---
 src/sasl.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/sasl.c b/src/sasl.c
index 739b84b..50561c3 100644
--- a/src/sasl.c
+++ b/src/sasl.c
@@ -465,6 +465,10 @@ char *sasl_scram(xmpp_ctx_t *ctx,
             s = ptr + 2;
         } else if (strncmp(ptr, "i=", 2) == 0) {
             i = ptr + 2;
+        } else if (strncmp(ptr, "m=", 2) == 0) {
+            /* RFC 5802: an unsupported mandatory extension */
+            strophe_error(ctx, "SASL", "Unsupported SCRAM extension");
+            goto out;
         }
         ptr = strtok_r(NULL, ",", &saveptr);
     }
@@ -473,6 +477,14 @@ char *sasl_scram(xmpp_ctx_t *ctx,
         goto out;
     }
 
+    /* RFC 5802: the server's nonce has to begin with the client's, which is the
+     * last attribute of "n=<node>,r=<nonce>" */
+    ptr = strrchr(first_bare, ',');
+    if (!ptr || strncmp(r, ptr + 1, strlen(ptr + 1)) != 0) {
+        strophe_error(ctx, "SASL", "Server's nonce doesn't match");
+        goto out;
+    }
+
     xmpp_base64_decode_bin(ctx, s, strlen(s), &sval, &sval_len);
     if (!sval) {
         goto out;
-- 
2.43.0

