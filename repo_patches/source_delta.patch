From 2c00f4c436d9922cb0f8c7037ed0f69b2f69e021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:46 +0000
Subject: [PATCH 001/114] fix: do not parse the rest of an unread request body
 as next request

If the response was complete before the request body was received the
connection was kept alive and the remaining body bytes were parsed as a
new (pipelined) request. Close the connection instead.
---
 src/main/connection.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/main/connection.c b/src/main/connection.c
index 12ec924..261e63c 100644
--- a/src/main/connection.c
+++ b/src/main/connection.c
@@ -191,6 +191,11 @@ static void connection_check_reset(liJob *job) {
 	}
 }
 
+/* whether (parts of) the request body weren't received yet */
+static gboolean connection_request_body_pending(liConnection *con) {
+	return 0 != con->mainvr->request.content_length && !con->in.out->is_closed;
+}
+
 /* tcp/ssl -> http "parser" */
 static void _connection_http_in_cb(liStream *stream, liStreamEvent event) {
 	liConnection *con = LI_CONTAINER_OF(stream, liConnection, in);
@@ -427,6 +432,10 @@ static void _connection_http_out_cb(liStream *stream, liStreamEvent event) {
 			if (0 == CORE_OPTION(LI_CORE_OPTION_MAX_KEEP_ALIVE_IDLE).number) {
 				con->info.keep_alive = FALSE;
 			}
+			/* complete response before the request body was received: can't keep the connection */
+			if ((NULL == out || out->is_closed) && connection_request_body_pending(con)) {
+				con->info.keep_alive = FALSE;
+			}
 			li_response_send_headers(vr, raw_out, out, FALSE);
 		}
 
@@ -562,7 +571,9 @@ void li_connection_request_done(liConnection *con) {
 	li_plugins_handle_close(con);
 
 	s = g_atomic_int_get(&con->srv->dest_state);
-	if (con->info.keep_alive &&  (LI_SERVER_RUNNING == s || LI_SERVER_WARMUP == s) && NULL != con->con_sock.data) {
+	/* the remaining request body must not be parsed as next request */
+	if (con->info.keep_alive && !connection_request_body_pending(con)
+	    && (LI_SERVER_RUNNING == s || LI_SERVER_WARMUP == s) && NULL != con->con_sock.data) {
 		li_connection_reset_keep_alive(con);
 	} else {
 		con->state = LI_CON_STATE_CLOSE;
-- 
2.43.0


From 71fa4695a2cf8bb6159d5e8c4d6d9081307b27bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:46 +0000
Subject: [PATCH 002/114] fix: reject chunked request bodies for GET/HEAD

The body was not decoded and instead parsed as next request.
---
 src/main/request.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main/request.c b/src/main/request.c
index 86a0cbb..cb88aff 100644
--- a/src/main/request.c
+++ b/src/main/request.c
@@ -280,9 +280,9 @@ gboolean li_request_validate_header(liConnection *con) {
 	switch(con->mainvr->request.http_method) {
 	case LI_HTTP_METHOD_GET:
 	case LI_HTTP_METHOD_HEAD:
-		/* content-length is forbidden for those */
-		if (con->mainvr->request.content_length > 0) {
-			VR_ERROR(con->mainvr, "%s", "GET/HEAD with content-length -> 400");
+		/* content-length and chunked encoding are forbidden for those */
+		if (con->mainvr->request.content_length > 0 || transfer_encoding_chunked) {
+			VR_ERROR(con->mainvr, "%s", "GET/HEAD with content-length or chunked encoding -> 400");
 
 			bad_request(con, 400); /* bad request */
 			return FALSE;
-- 
2.43.0


From 19589e01979dd4c861549f91961ef24434345ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:33 +0000
Subject: [PATCH 003/114] fix: reject ambiguous Content-Length headers

Several Content-Length headers were accepted (last one won), as were
empty and signed values; a stale errno could reject a valid number.
---
 src/main/request.c | 39 ++++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/src/main/request.c b/src/main/request.c
index cb88aff..93bfb4f 100644
--- a/src/main/request.c
+++ b/src/main/request.c
@@ -188,36 +188,41 @@ gboolean li_request_validate_header(liConnection *con) {
 	}
 
 	/* content-length */
-	hh = li_http_header_lookup(req->headers, CONST_STR_LEN("content-length"));
-	if (hh) {
-		const gchar *val = LI_HEADER_VALUE(hh);
+	l = li_http_header_find_first(req->headers, CONST_STR_LEN("content-length"));
+	if (l) {
+		const gchar *val;
 		gint64 r;
 		char *err;
 
-		r = g_ascii_strtoll(val, &err, 10);
-		if (*err != '\0') {
-			_VR_DEBUG(con->srv, con->mainvr, "content-length is not a number: %s (Status: 400)", err);
+		if (NULL != li_http_header_find_next(l, CONST_STR_LEN("content-length"))) {
+			/* more than one "content-length" header */
 			bad_request(con, 400); /* bad request */
 			return FALSE;
 		}
 
-		/**
-			* negative content-length is not supported
-			* and is a bad request
-			*/
-		if (r < 0) {
+		hh = (liHttpHeader*) l->data;
+		val = LI_HEADER_VALUE(hh);
+
+		/* only digits; g_ascii_strtoll also accepts an empty string, whitespace and signs */
+		if (!g_ascii_isdigit(*val)) {
+			bad_request(con, 400); /* bad request */
+			return FALSE;
+		}
+
+		errno = 0;
+		r = g_ascii_strtoll(val, &err, 10);
+		if (*err != '\0') {
+			_VR_DEBUG(con->srv, con->mainvr, "content-length is not a number: %s (Status: 400)", err);
 			bad_request(con, 400); /* bad request */
 			return FALSE;
 		}
 
 		/**
-			* check if we had a over- or underrun in the string conversion
+			* check if we had an overrun in the string conversion
 			*/
-		if (r == G_MININT64 || r == G_MAXINT64) {
-			if (errno == ERANGE) {
-				bad_request(con, 413); /* Request Entity Too Large */
-				return FALSE;
-			}
+		if (r == G_MAXINT64 && errno == ERANGE) {
+			bad_request(con, 413); /* Request Entity Too Large */
+			return FALSE;
 		}
 
 		con->mainvr->request.content_length = r;
-- 
2.43.0


From cc0d8f27267255f7818b4f30958330fa9b8b36cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:47 +0000
Subject: [PATCH 004/114] fix: absolute-form request URI duplicated the scheme

The scheme of the request line was appended to the default scheme,
resulting in e.g. "httphttp" (visible in Location headers).
---
 src/main/url_parser.rl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main/url_parser.rl b/src/main/url_parser.rl
index 37de7cb..71349f4 100644
--- a/src/main/url_parser.rl
+++ b/src/main/url_parser.rl
@@ -29,6 +29,7 @@
 		li_g_string_append_len(uri->raw_path, mark-1, fpc - mark+1); /* include '?' in append */
 	}
 	action save_scheme {
+		g_string_truncate(uri->scheme, 0);
 		li_g_string_append_len(uri->scheme, mark, fpc - mark);
 	}
 
-- 
2.43.0


From c417ba0e08dc4733118f6fb638380220be8d7760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:47 +0000
Subject: [PATCH 005/114] fix: unencoded '#' in request URI duplicated
 path/query

'#' was allowed in path and query and started the fragment too; the
ambiguous grammar ran the (appending) save actions twice: "/a#b"
resulted in the path "/a/a#b".
---
 src/main/url_parser.rl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/url_parser.rl b/src/main/url_parser.rl
index 71349f4..9e343b9 100644
--- a/src/main/url_parser.rl
+++ b/src/main/url_parser.rl
@@ -43,7 +43,7 @@
 	unreserved  = alpha | digit | "-" | "." | "_" | "~";
 
 	# many clients don't encode these, e.g. curl, wget, ...
-	delims      = "<" | ">" | "#" | "%" | '"';
+	delims      = "<" | ">" | "%" | '"';
 	unwise      = " " | "{" | "}" | "|" | "\\" | "^" | "[" | "]" | "`";
 
 	pchar = unreserved | pct_encoded | sub_delims | ":" | "@" | delims | unwise;
@@ -71,7 +71,7 @@
 	authority   = ( userinfo "@" )? (host >mark_host %save_host) ( ":" port )?;
 
 	query = ( pchar | "/" | "?" )* >mark %save_query;
-	fragment = ( pchar | "/" | "?" )*;
+	fragment = ( pchar | "/" | "?" | "#" )*;
 
 	URI_path = (path ( "?" query )?) ( "#" fragment )?;
 
-- 
2.43.0


From 7557db1b079d17c6d9db6edd3d301395a4daa8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:47 +0000
Subject: [PATCH 006/114] fix: reset chunked decoding state when recycling a
 connection

A connection closed while receiving a chunked request body left its
decoder state behind; the next connection reusing the object failed (or
misinterpreted) its chunked request bodies.
---
 src/main/connection.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main/connection.c b/src/main/connection.c
index 261e63c..d7085f0 100644
--- a/src/main/connection.c
+++ b/src/main/connection.c
@@ -772,6 +772,7 @@ static void li_connection_reset2(liConnection *con) {
 	li_vrequest_reset(con->mainvr, FALSE);
 
 	li_http_request_parser_reset(&con->req_parser_ctx);
+	memset(&con->in_chunked_decode_state, 0, sizeof(con->in_chunked_decode_state));
 
 	g_string_truncate(con->info.remote_addr_str, 0);
 	li_sockaddr_clear(&con->info.remote_addr);
-- 
2.43.0


From 00785f6bf05456fdc90a728a366afaabefc67b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:47 +0000
Subject: [PATCH 007/114] fix: url decoding of invalid escape sequences

Characters outside of [0-9A-Fa-f] were accepted as hex digits ("%:0"),
and an incomplete sequence at the end skipped the truncation of the
decoded string, leaving stale bytes at the end of the path.
---
 src/common/utils.c | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/src/common/utils.c b/src/common/utils.c
index 1ab5ce0..74bc7ca 100644
--- a/src/common/utils.c
+++ b/src/common/utils.c
@@ -306,24 +306,11 @@ gint li_receive_fd(gint s, gint *fd) { /* read fd from unix socket s */
 
 
 
-/* converts hex char (0-9, A-Z, a-z) to decimal.
+/* converts hex char (0-9, A-F, a-f) to decimal.
  * returns -1 on invalid input.
  */
 static int hex2int(unsigned char hex) {
-	int res;
-	if (hex >= 'A') { /* 'A' < 'a': hex >= 'A' --> hex >= 'a' */
-		if (hex >= 'a') {
-			res = hex - 'a' + 10;
-		} else {
-			res = hex - 'A' + 10;
-		}
-	} else {
-		res = hex - '0';
-	}
-	if (res > 15)
-		res = -1;
-
-	return res;
+	return g_ascii_xdigit_value(hex);
 }
 
 void li_url_decode(GString *path) {
@@ -342,7 +329,7 @@ void li_url_decode(GString *path) {
 				src += 2;
 			} else {
 				/* end of string */
-				return;
+				break;
 			}
 		} else {
 			if (c < 32 || c == 127) c = '_';
-- 
2.43.0


From e59665d98a91f1b5647d32b5afcbcce72cf5c8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:19 +0000
Subject: [PATCH 008/114] fix: abort response if the backend closes before
 content-length was received

The request was left hanging forever otherwise.
---
 src/main/stream_http_response.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main/stream_http_response.c b/src/main/stream_http_response.c
index 2981f0c..fcefb8a 100644
--- a/src/main/stream_http_response.c
+++ b/src/main/stream_http_response.c
@@ -225,6 +225,9 @@ static void stream_http_response_data(liStreamHttpResponse* shr) {
 		if (shr->content_length == 0) {
 			shr->stream.out->is_closed = TRUE;
 			li_stream_disconnect(&shr->stream);
+		} else if (shr->stream.source->out->is_closed) {
+			/* "abort": connection closed before the announced length was received */
+			li_stream_disconnect(&shr->stream);
 		}
 	}
 	li_stream_notify(&shr->stream);
-- 
2.43.0


From b94ff75f09208375dee98fae03ee11d1daeb68cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:19 +0000
Subject: [PATCH 009/114] fix: don't send Content-Length together with
 Transfer-Encoding: chunked

---
 src/main/response.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/response.c b/src/main/response.c
index 09eb87a..7167281 100644
--- a/src/main/response.c
+++ b/src/main/response.c
@@ -62,7 +62,8 @@ void li_response_send_headers(liVRequest *vr, liChunkQueue *raw_out, liChunkQueu
 			li_http_header_overwrite(vr->response.headers, CONST_STR_LEN("Content-Length"), GSTR_LEN(vr->wrk->tmp_str));
 		}
 	} else if (vr->coninfo->keep_alive && vr->request.http_version == LI_HTTP_VERSION_1_1) {
-		/* TODO: maybe someone set a content length header? */
+		/* must not send content-length (e.g. from a backend) with transfer-encoding */
+		li_http_header_remove(vr->response.headers, CONST_STR_LEN("Content-Length"));
 		if (!(vr->response.transfer_encoding & LI_HTTP_TRANSFER_ENCODING_CHUNKED)) {
 			vr->response.transfer_encoding |= LI_HTTP_TRANSFER_ENCODING_CHUNKED;
 			li_http_header_append(vr->response.headers, CONST_STR_LEN("Transfer-Encoding"), CONST_STR_LEN("chunked"));
-- 
2.43.0


From f1b821dbcdb4f8e9cec83e4f4b9c4481aa3b5ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:19 +0000
Subject: [PATCH 010/114] fix: frame 205 responses with Content-Length: 0

205 responses are not bodyless by definition; without (or with a wrong)
content-length clients wait for the body on keep-alive connections.
---
 src/main/response.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main/response.c b/src/main/response.c
index 7167281..6769859 100644
--- a/src/main/response.c
+++ b/src/main/response.c
@@ -54,6 +54,10 @@ void li_response_send_headers(liVRequest *vr, liChunkQueue *raw_out, liChunkQueu
 	     vr->response.http_status == 304) {
 		/* They never have a content-body/length */
 		if (NULL != response_body) li_chunkqueue_skip_all(response_body);
+		if (vr->response.http_status == 205) {
+			/* but clients don't know that for 205: needs to be framed as empty body */
+			li_http_header_overwrite(vr->response.headers, CONST_STR_LEN("Content-Length"), CONST_STR_LEN("0"));
+		}
 		if (!upgraded) raw_out->is_closed = TRUE;
 	} else if (response_complete) {
 		if (vr->request.http_method != LI_HTTP_METHOD_HEAD || response_body->length > 0) {
-- 
2.43.0


From ec22cf38e9e766d97ef36512cb919f51ea3573fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:34 +0000
Subject: [PATCH 011/114] fix: detect line end after a stray CR in chunked
 trailers

"\r\r\n" was not recognized as end of line, so the trailer ended
too late and swallowed data of the following (pipelined) request.
---
 src/main/filter_chunked.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/filter_chunked.c b/src/main/filter_chunked.c
index e165788..0c85a78 100644
--- a/src/main/filter_chunked.c
+++ b/src/main/filter_chunked.c
@@ -165,7 +165,7 @@ gboolean li_filter_chunked_decode(liVRequest *vr, liChunkQueue *out, liChunkQueu
 		case 11: /* \n\r\n */
 			read_char(c);
 			li_chunk_parser_done(&ctx, 1);
-			state->parse_state = (c == '\n') ? 12 : 10;
+			state->parse_state = (c == '\n') ? 12 : (c == '\r') ? 11 : 10;
 			break;
 		case 12: /* \r\n */
 			read_char(c);
@@ -175,7 +175,7 @@ gboolean li_filter_chunked_decode(liVRequest *vr, liChunkQueue *out, liChunkQueu
 		case 13: /* \n */
 			read_char(c);
 			li_chunk_parser_done(&ctx, 1);
-			state->parse_state = (c == '\n') ? 14 : 10;
+			state->parse_state = (c == '\n') ? 14 : (c == '\r') ? 11 : 10;
 			break;
 		case 14:
 			out->is_closed = TRUE;
-- 
2.43.0


From d821b4651bb7092e489a015bcd7a3b6b6a16c88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:19 +0000
Subject: [PATCH 012/114] fix: limit regex capture ranges in patterns to
 existing captures

open ranges iterated over 2^31 captures, reversed ranges ending at 0 never terminated
---
 src/main/pattern.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/main/pattern.c b/src/main/pattern.c
index d82ff9f..6c40445 100644
--- a/src/main/pattern.c
+++ b/src/main/pattern.c
@@ -332,20 +332,23 @@ void li_pattern_array_cb(GString *pattern_result, guint from, guint to, gpointer
 void li_pattern_regex_cb(GString *pattern_result, guint from, guint to, gpointer data) {
 	GMatchInfo *match_info = data;
 	guint i;
-	gint start_pos, end_pos;
+	gint start_pos, end_pos, count;
 
 	if (NULL == match_info) return;
 
+	count = g_match_info_get_match_count(match_info);
+	if (count <= 0) return;
+
 	if (HEDLEY_LIKELY(from <= to)) {
-		to = MIN(to, G_MAXINT);
+		to = MIN(to, (guint) count - 1);
 		for (i = from; i <= to; i++) {
 			if (g_match_info_fetch_pos(match_info, (gint) i, &start_pos, &end_pos)) {
 				li_g_string_append_len(pattern_result, g_match_info_get_string(match_info) + start_pos, end_pos - start_pos);
 			}
 		}
 	} else {
-		from = MIN(from, G_MAXINT); /* => from+1 is defined */
-		for (i = from + 1; --i >= to; ) {
+		from = MIN(from, (guint) count - 1); /* => from+1 is defined */
+		for (i = from + 1; i-- > to; ) {
 			if (g_match_info_fetch_pos(match_info, (gint) i, &start_pos, &end_pos)) {
 				li_g_string_append_len(pattern_result, g_match_info_get_string(match_info) + start_pos, end_pos - start_pos);
 			}
-- 
2.43.0


From ed24fc895af96459861eef619cb38ace0b1291a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:19 +0000
Subject: [PATCH 013/114] fix: li_path_simplify of an empty path appended a NUL
 byte

---
 src/common/utils.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/common/utils.c b/src/common/utils.c
index 74bc7ca..04390c7 100644
--- a/src/common/utils.c
+++ b/src/common/utils.c
@@ -361,6 +361,11 @@ void li_path_simplify(GString *path) {
 		walk++;
 	}
 
+	if (*walk == '\0') {
+		g_string_assign(path, "/");
+		return;
+	}
+
 	pre1 = *(walk++);
 	c    = *(walk++);
 	pre  = pre1;
@@ -370,11 +375,6 @@ void li_path_simplify(GString *path) {
 	}
 	*(out++) = pre1;
 
-	if (pre1 == '\0') {
-		g_string_set_size(path, out - start);
-		return;
-	}
-
 	while (1) {
 		if (c == '/' || c == '\0') {
 			toklen = out - slash;
-- 
2.43.0


From baf07cf18d549c7df44e760eef786ed1b6197398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:29 +0000
Subject: [PATCH 014/114] fix: reject hostnames with empty labels

docroot patterns build paths from hostname labels, "Host: ...a" made "$[2-]" expand to ".."
---
 src/main/request.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/main/request.c b/src/main/request.c
index 93bfb4f..688661a 100644
--- a/src/main/request.c
+++ b/src/main/request.c
@@ -187,6 +187,12 @@ gboolean li_request_validate_header(liConnection *con) {
 		g_string_truncate(req->uri.host, i);
 	}
 
+	/* no empty labels: docroot patterns build paths from labels ("...a" with "$[2-]" would be "..") */
+	if ('.' == req->uri.host->str[0] || NULL != strstr(req->uri.host->str, "..")) {
+		bad_request(con, 400); /* bad request */
+		return FALSE;
+	}
+
 	/* content-length */
 	l = li_http_header_find_first(req->headers, CONST_STR_LEN("content-length"));
 	if (l) {
-- 
2.43.0


From 31902f9c50583741c099076ec83b8ac88ceabce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:14 +0000
Subject: [PATCH 015/114] fix: etag hash collides for simple modifications of a
 file

the rotate-xor hash is linear: changes of size and mtime could cancel out (size 1000, mtime t and size 2400, mtime t+68)
---
 src/main/etag.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/main/etag.c b/src/main/etag.c
index 873cc66..8613762 100644
--- a/src/main/etag.c
+++ b/src/main/etag.c
@@ -118,13 +118,17 @@ gboolean li_http_response_handle_cachable(liVRequest *vr) {
 
 void li_etag_mutate(GString *mut, GString *etag) {
 	guint i;
-	guint32 h;
+	guint64 h = G_GUINT64_CONSTANT(0xcbf29ce484222325);
 
-	for (h=0, i=0; i < etag->len; ++i) h = (h<<5)^(h>>27)^(etag->str[i]);
+	/* FNV-1a; small changes in size and mtime must not cancel out */
+	for (i=0; i < etag->len; ++i) {
+		h ^= (guchar) etag->str[i];
+		h *= G_GUINT64_CONSTANT(0x100000001b3);
+	}
 
 	g_string_truncate(mut, 0);
 	li_g_string_append_len(mut, CONST_STR_LEN("\""));
-	li_string_append_int(mut, (guint64) h);
+	li_string_append_int(mut, (gint64) (h & G_MAXINT64));
 	li_g_string_append_len(mut, CONST_STR_LEN("\""));
 }
 
-- 
2.43.0


From 9d06476a907da203755b4a6bfee1512e86a696d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:18 +0000
Subject: [PATCH 016/114] fix: check If-Range before handling Range requests

a resumed download of a modified file was a mix of both versions
---
 src/main/plugin_core.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/main/plugin_core.c b/src/main/plugin_core.c
index e916202..01464e6 100644
--- a/src/main/plugin_core.c
+++ b/src/main/plugin_core.c
@@ -541,6 +541,22 @@ static liAction* core_index(liServer *srv, liWorker *wrk, liPlugin* p, liValue *
 }
 
 
+/* If-Range: only handle Range if the validator (etag or date) matches the current file */
+static gboolean core_check_if_range(liVRequest *vr) {
+	liHttpHeader *hh_if_range = li_http_header_lookup(vr->request.headers, CONST_STR_LEN("if-range"));
+	liHttpHeader *hh_validator;
+
+	if (NULL == hh_if_range) return TRUE;
+
+	if ('"' == *LI_HEADER_VALUE(hh_if_range)) {
+		hh_validator = li_http_header_lookup(vr->response.headers, CONST_STR_LEN("etag"));
+	} else {
+		hh_validator = li_http_header_lookup(vr->response.headers, CONST_STR_LEN("last-modified"));
+	}
+
+	return NULL != hh_validator && 0 == strcmp(LI_HEADER_VALUE(hh_if_range), LI_HEADER_VALUE(hh_validator));
+}
+
 static liHandlerResult core_handle_static(liVRequest *vr, gpointer param, gpointer *context) {
 	int fd = -1;
 	struct stat st;
@@ -681,8 +697,7 @@ static liHandlerResult core_handle_static(liVRequest *vr, gpointer param, gpoint
 			li_http_header_overwrite(vr->response.headers, CONST_STR_LEN("Accept-Ranges"), CONST_STR_LEN("bytes"));
 
 			hh_range = li_http_header_lookup(vr->request.headers, CONST_STR_LEN("range"));
-			if (hh_range) {
-				/* TODO: Check If-Range: header */
+			if (hh_range && core_check_if_range(vr)) {
 				const GString range_str = li_const_gstring(LI_HEADER_VALUE_LEN(hh_range));
 				liParseHttpRangeState rs;
 				gboolean is_multipart = FALSE, done = FALSE;
-- 
2.43.0


From 2952a647af885c34c0552e4fd05a02f2d19b5983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:11 +0000
Subject: [PATCH 017/114] fix: a FIFO in the docroot blocked the worker

---
 src/main/stat_cache.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/stat_cache.c b/src/main/stat_cache.c
index 4089804..cb8b3bc 100644
--- a/src/main/stat_cache.c
+++ b/src/main/stat_cache.c
@@ -315,8 +315,8 @@ static liHandlerResult stat_cache_get(liVRequest *vr, GString *path, struct stat
 	}
 
 	if (fd) {
-		/* open + fstat */
-		while (-1 == (*fd = open(path->str, O_RDONLY))) {
+		/* open + fstat; O_NONBLOCK: must not block on a FIFO */
+		while (-1 == (*fd = open(path->str, O_RDONLY | O_NONBLOCK))) {
 			if (errno == EINTR)
 				continue;
 
-- 
2.43.0


From e22e7aee46413537f8e98ff8968bcf8e3d38e264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:35 +0000
Subject: [PATCH 018/114] fix: don't append client headers after a configured
 CGI environment variable of the same name

---
 src/main/environment.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/main/environment.c b/src/main/environment.c
index 2fcc9d7..77538ad 100644
--- a/src/main/environment.c
+++ b/src/main/environment.c
@@ -189,6 +189,13 @@ void li_environment_dup2cgi(liVRequest *vr, liEnvironmentDup *envdup, liAddEnvir
 			li_g_string_append_len(tmp, h->data->str, h->keylen);
 			cgi_fix_header_name(tmp);
 
+			/* a configured value replaces all headers mapped to this name: don't append values from the client after it was sent */
+			if (NULL != li_environment_get(&vr->env, GSTR_LEN(tmp))) {
+				const GString *sval = li_environment_dup_pop(envdup, GSTR_LEN(tmp));
+				if (NULL != sval) callback(param, GSTR_LEN(tmp), GSTR_LEN(sval));
+				continue;
+			}
+
 			add_env_var(envdup, callback, param, GSTR_LEN(tmp), h->data->str + h->keylen+2, h->data->len - (h->keylen+2));
 		}
 	}
-- 
2.43.0


From ba86446d758d1e870520f8b35a2357871f473c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:33 +0000
Subject: [PATCH 019/114] fix: encode decoded data in the query when rewrite
 rebuilds the raw request path

---
 src/modules/mod_rewrite.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/modules/mod_rewrite.c b/src/modules/mod_rewrite.c
index a5c806b..ec58488 100644
--- a/src/modules/mod_rewrite.c
+++ b/src/modules/mod_rewrite.c
@@ -201,8 +201,16 @@ static liHandlerResult rewrite(liVRequest *vr, gpointer param, gpointer *context
 			/* rebuild raw_path */
 			li_string_encode(vr->request.uri.path->str, vr->request.uri.raw_path, LI_ENCODING_URI);
 			if (vr->request.uri.query->len > 0) {
+				const gchar *c;
 				li_g_string_append_len(vr->request.uri.raw_path, CONST_STR_LEN("?"));
-				li_g_string_append_len(vr->request.uri.raw_path, GSTR_LEN(vr->request.uri.query));
+				/* the new query may contain decoded data; keep raw_path a valid URI */
+				for (c = vr->request.uri.query->str; *c != '\0'; c++) {
+					if ((guchar) *c <= ' ' || (guchar) *c >= 0x7f) {
+						g_string_append_printf(vr->request.uri.raw_path, "%%%02X", (guchar) *c);
+					} else {
+						g_string_append_c(vr->request.uri.raw_path, *c);
+					}
+				}
 			}
 
 			/* stop at first matching regex */
-- 
2.43.0


From aafe0905b1652d0511ef7dd6f5d662e97fdf978d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:00 +0000
Subject: [PATCH 020/114] fix: continue parsing after a dropped 1xx backend
 response

---
 src/main/http_response_parser.rl | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main/http_response_parser.rl b/src/main/http_response_parser.rl
index 9c8a9cb..3335087 100644
--- a/src/main/http_response_parser.rl
+++ b/src/main/http_response_parser.rl
@@ -167,12 +167,13 @@ liHandlerResult li_http_response_parse(liVRequest *vr, liHttpResponseCtx *ctx) {
 
 	if (li_http_response_handle_finished(ctx)) return LI_HANDLER_GO_ON;
 
-	if (LI_HANDLER_GO_ON != (res = li_chunk_parser_prepare(&ctx->chunk_ctx))) return res;
-
 	while (!li_http_response_parser_has_error(ctx)) {
 		char *p, *pe;
 		GError *err = NULL;
 
+		/* (re)start at the head of the queue, also after a dropped (1xx) header */
+		if (LI_HANDLER_GO_ON != (res = li_chunk_parser_prepare(&ctx->chunk_ctx))) return res;
+
 		if (LI_HANDLER_GO_ON != (res = li_chunk_parser_next(&ctx->chunk_ctx, &p, &pe, &err))) {
 			if (NULL != err) {
 				VR_ERROR(vr, "%s", err->message);
-- 
2.43.0


From ea583c9be59ad8a143ae5fdf598f8100b8961b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:11 +0000
Subject: [PATCH 021/114] fix: FastCGI requests hung if the backend closed the
 connection without a complete END_REQUEST

---
 src/modules/fastcgi_stream.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modules/fastcgi_stream.c b/src/modules/fastcgi_stream.c
index 346d215..4c15011 100644
--- a/src/modules/fastcgi_stream.c
+++ b/src/modules/fastcgi_stream.c
@@ -519,7 +519,7 @@ static void fastcgi_decode(liFastCGIBackendContext *ctx) {
 					fastcgi_reset(ctx);
 					return;
 				}
-				if (in->length < 8) return; /* wait for more */
+				if (in->length < 8) break; /* wait for more (or handle eof below) */
 
 				{
 					unsigned char endreq[8];
@@ -628,6 +628,7 @@ static void fastcgi_decode(liFastCGIBackendContext *ctx) {
 		} else {
 			ctx->stdin_closed = ctx->stdout_closed = ctx->stderr_closed = ctx->request_done = TRUE;
 			ctx->fcgi_in.out->is_closed = TRUE;
+			li_stream_notify_later(&ctx->fcgi_in);
 			li_stream_simple_socket_close(ctx->iostream, FALSE);
 		}
 	}
-- 
2.43.0


From 24103dc1ebd8b9dd16fc82957588adf476d41e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:54 +0000
Subject: [PATCH 022/114] fix: reject invalid status codes from backends

---
 src/main/stream_http_response.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/main/stream_http_response.c b/src/main/stream_http_response.c
index fcefb8a..5f20f98 100644
--- a/src/main/stream_http_response.c
+++ b/src/main/stream_http_response.c
@@ -95,6 +95,13 @@ static void check_response_header(liStreamHttpResponse* shr) {
 		return;
 	}
 
+	/* anything else must be a final response: the client would wait for another one after 1xx */
+	if (resp->http_status < 200 || resp->http_status > 999) {
+		VR_ERROR(shr->vr, "Backend response has invalid status %i", resp->http_status);
+		li_vrequest_error(shr->vr);
+		return;
+	}
+
 	if (!shr->transfer_encoding_chunked && shr->keepalive) {
 		/**
 		 * if protocol has HTTP "keepalive" concept and encoding isn't chunked,
-- 
2.43.0


From 0a8a4030f15d70b937fa1b110b5c1f7f12a86ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:24 +0000
Subject: [PATCH 023/114] fix: requests hung if the backend connection was lost
 before the response header

---
 src/main/stream_http_response.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/main/stream_http_response.c b/src/main/stream_http_response.c
index 5f20f98..90ece9a 100644
--- a/src/main/stream_http_response.c
+++ b/src/main/stream_http_response.c
@@ -253,11 +253,18 @@ static void stream_http_response_cb(liStream *stream, liStreamEvent event) {
 		li_stream_disconnect(stream);
 		break;
 	case LI_STREAM_DISCONNECTED_SOURCE:
-		shr->vr = NULL;
 		if (!stream->out->is_closed) {
+			liVRequest *vr = shr->vr;
+			shr->vr = NULL;
+			if (NULL != vr && !shr->response_headers_finished && stream == vr->backend_source) {
+				/* nothing else would wake up the request */
+				VR_ERROR(vr, "%s", "Lost backend connection before response header was received");
+				li_vrequest_error(vr);
+			}
 			/* "abort" */
 			li_stream_disconnect_dest(stream);
 		}
+		shr->vr = NULL;
 		break;
 	case LI_STREAM_DESTROY:
 		li_http_response_parser_clear(&shr->parse_response_ctx);
-- 
2.43.0


From 3422bee81e3badd6ed68e551a6554fbcb4df6608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:36 +0000
Subject: [PATCH 024/114] fix: li_parse_ipv6 did not store the address if it
 was not compressed

---
 src/common/ip_parsers.rl | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/common/ip_parsers.rl b/src/common/ip_parsers.rl
index aef15e6..1f4e546 100644
--- a/src/common/ip_parsers.rl
+++ b/src/common/ip_parsers.rl
@@ -134,10 +134,13 @@ gboolean li_parse_ipv6(const char *str, guint8 *ip, guint *network, guint16 *por
 	%% write exec noend;
 
 	if (!res || cs < ipv6_parser_first_final) return FALSE;
-	if (!compressed) return (prec == 8);
-	if (prec + postc > 7) return FALSE;
-	for ( ; prec < 8-postc; prec++) predata[prec] = 0;
-	for (postc = 0 ; prec < 8; prec++, postc++ ) predata[prec] = postdata[postc];
+	if (!compressed) {
+		if (prec != 8) return FALSE;
+	} else {
+		if (prec + postc > 7) return FALSE;
+		for ( ; prec < 8-postc; prec++) predata[prec] = 0;
+		for (postc = 0 ; prec < 8; prec++, postc++ ) predata[prec] = postdata[postc];
+	}
 	memcpy(ip, predata, 16);
 
 	return TRUE;
-- 
2.43.0


From 975cdd5531f70574788d6bc8475467a119ece4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:36 +0000
Subject: [PATCH 025/114] fix: li_radixtree_remove did not find keys longer
 than 32 bits

---
 src/common/radix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/radix.c b/src/common/radix.c
index c86b718..e4dc5b3 100644
--- a/src/common/radix.c
+++ b/src/common/radix.c
@@ -211,7 +211,7 @@ static gpointer radixtree_remove(liRadixNode **nodeptr, rdxBase *input, guint32
 
 	if (mask & 0x1) {
 		/* next "layer" */
-		input++;
+		current = *++input;
 		bits -= RDXBITS;
 		nextnode = (current & RDX_BIT(0)) ? &node->right : &node->left;
 	} else {
-- 
2.43.0


From b51027e7ca588171e49beddeed517f187317fe5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:17 +0000
Subject: [PATCH 026/114] fix: integer overflow parsing ip addresses with huge
 numbers

---
 src/common/ip_parsers.rl | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/common/ip_parsers.rl b/src/common/ip_parsers.rl
index 1f4e546..c31d9f3 100644
--- a/src/common/ip_parsers.rl
+++ b/src/common/ip_parsers.rl
@@ -5,7 +5,8 @@
 	machine ipv4_parser;
 
 	action dc_start { tmpval = 0; }
-	action dc_step { tmpval = 10*tmpval + (fc - '0'); }
+	# all limits are <= 65535, don't overflow
+	action dc_step { if (tmpval <= 65535) tmpval = 10*tmpval + (fc - '0'); }
 
 	decint = (digit digit**) >dc_start $dc_step;
 	octet = decint %{
@@ -58,7 +59,8 @@ gboolean li_parse_ipv4(const char *str, guint32 *ip, guint32 *netmask, guint16 *
 	action mark { mark = fpc; }
 
 	action dc_start { tmpval = 0; }
-	action dc_step { tmpval = 10*tmpval + (fc - '0'); }
+	# all limits are <= 65535, don't overflow
+	action dc_step { if (tmpval <= 65535) tmpval = 10*tmpval + (fc - '0'); }
 
 	decint = (digit digit**) >dc_start $dc_step;
 	octet = decint %{
-- 
2.43.0


From 1ea2ea5b204277052ed4f3745b9778550eae1875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:15 +0000
Subject: [PATCH 027/114] fix: 'and' did not bind stronger than 'or' in config
 conditions

---
 src/main/config_parser.rl | 40 +++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/src/main/config_parser.rl b/src/main/config_parser.rl
index a0a6bc1..c2b2f48 100644
--- a/src/main/config_parser.rl
+++ b/src/main/config_parser.rl
@@ -1740,30 +1740,34 @@ static gboolean p_condition_expr(liConditionTree **tree, liConfigToken preOp, li
 	liConfigToken op = TK_ERROR;
 
 	for (;;) {
-		gboolean negated = FALSE;
-		NEXT(token);
-		if (TK_NOT == token) {
-			negated = TRUE;
+		if (result == NULL) {
+			gboolean negated = FALSE;
 			NEXT(token);
-		}
+			if (TK_NOT == token) {
+				negated = TRUE;
+				NEXT(token);
+			}
 
-		if (TK_PARA_OPEN == token) {
-			if (!p_condition_expr(&leave, TK_ERROR, ctx, error)) goto error;
-			NEXT(token);
-			if (TK_PARA_CLOSE != token) {
-				parse_error(ctx, error, "expected ')'");
-				goto error;
+			if (TK_PARA_OPEN == token) {
+				if (!p_condition_expr(&leave, TK_ERROR, ctx, error)) goto error;
+				NEXT(token);
+				if (TK_PARA_CLOSE != token) {
+					parse_error(ctx, error, "expected ')'");
+					goto error;
+				}
+			} else {
+				REMEMBER(token);
+				if (!p_condition_value(&leave, ctx, error)) goto error;
 			}
-		} else {
-			REMEMBER(token);
-			if (!p_condition_value(&leave, ctx, error)) goto error;
-		}
-		if (negated) leave->negated = !leave->negated;
+			if (negated) leave->negated = !leave->negated;
 
-		if (result == NULL) {
 			result = leave;
 		} else {
-			liConditionTree *tmp = g_slice_new0(liConditionTree);
+			liConditionTree *tmp;
+			/* the right operand includes all following operators with a higher precedence than op */
+			if (!p_condition_expr(&leave, op, ctx, error)) goto error;
+
+			tmp = g_slice_new0(liConditionTree);
 			tmp->negated = FALSE;
 			tmp->op = op;
 			tmp->left = result;
-- 
2.43.0


From f89e9f949f1ee584e2c97cdec655fac2468ff476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:07 +0000
Subject: [PATCH 028/114] fix: redirect did not encode the request path in the
 Location header

---
 src/modules/mod_redirect.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/modules/mod_redirect.c b/src/modules/mod_redirect.c
index 48fe8db..3cd888f 100644
--- a/src/modules/mod_redirect.c
+++ b/src/modules/mod_redirect.c
@@ -123,11 +123,14 @@ static gboolean redirect_internal(liVRequest *vr, GString *dest, redirect_rule *
 		/* search for last slash /foo/bar */
 		{
 			gchar *c;
+			GString *dir;
 			for (c = (vr->request.uri.path->str + vr->request.uri.path->len); c-- > vr->request.uri.path->str;) {
 				if (*c == '/') break;
 			}
 
-			li_g_string_append_len(dest, vr->request.uri.path->str, c - vr->request.uri.path->str + 1);
+			dir = g_string_new_len(vr->request.uri.path->str, c - vr->request.uri.path->str + 1);
+			li_string_encode_append(dir->str, dest, LI_ENCODING_URI);
+			g_string_free(dir, TRUE);
 		}
 		break;
 	case REDIRECT_RELATIVE_QUERY:
@@ -135,7 +138,7 @@ static gboolean redirect_internal(liVRequest *vr, GString *dest, redirect_rule *
 		li_g_string_append_len(dest, GSTR_LEN(vr->request.uri.scheme));
 		li_g_string_append_len(dest, CONST_STR_LEN("://"));
 		li_g_string_append_len(dest, GSTR_LEN(vr->request.uri.authority));
-		li_g_string_append_len(dest, GSTR_LEN(vr->request.uri.path));
+		li_string_encode_append(vr->request.uri.path->str, dest, LI_ENCODING_URI);
 		break;
 	}
 
-- 
2.43.0


From 2ad65846f3ca36e622e2fca3019e8f0dcbe50558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:09 +0000
Subject: [PATCH 029/114] fix: captures of an enclosing regex condition were
 lost after a nested regex condition which did not match

---
 src/main/actions.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/main/actions.c b/src/main/actions.c
index cb326ab..4ca45b0 100644
--- a/src/main/actions.c
+++ b/src/main/actions.c
@@ -10,6 +10,7 @@ struct action_stack_element {
 		guint pos;
 	} data;
 	gboolean finished, backlog_provided;
+	gboolean regex_pushed; /* condition pushed its captures onto the regex stack */
 };
 
 void li_action_release(liServer *srv, liAction *a) {
@@ -177,10 +178,9 @@ static void action_stack_element_release(liServer *srv, liVRequest *vr, action_s
 		}
 		break;
 	case LI_ACTION_TCONDITION:
-		if (a->data.condition.cond->rvalue.type == LI_COND_VALUE_REGEXP) {
-			/* pop regex stack */
+		if (ase->regex_pushed) {
+			/* pop regex stack (only if the regex matched and the condition did push onto the stack) */
 			GArray *rs = vr->action_stack.regex_stack;
-			/* cheap check to prevent segfault if condition errored without pushing onto stack; whole stack gets cleaned anyways */
 			if (rs->len) {
 				liActionRegexStackElement *arse = &g_array_index(rs, liActionRegexStackElement, rs->len - 1);
 				if (arse->string)
@@ -264,7 +264,7 @@ void li_action_enter(liVRequest *vr, liAction *a) {
 	liActionStack *as = &vr->action_stack;
 	action_stack_element *top_ase = action_stack_top(as);
 	action_stack_element ase = { a, { 0 }, FALSE,
-		(top_ase ? top_ase->backlog_provided || (top_ase->act->type == LI_ACTION_TBALANCER && top_ase->act->data.balancer.provide_backlog) : FALSE) };
+		(top_ase ? top_ase->backlog_provided || (top_ase->act->type == LI_ACTION_TBALANCER && top_ase->act->data.balancer.provide_backlog) : FALSE), FALSE };
 	li_action_acquire(a);
 	g_array_append_val(as->stack, ase);
 }
@@ -290,7 +290,7 @@ liHandlerResult li_action_execute(liVRequest *vr) {
 	liAction *a;
 	liActionStack *as = &vr->action_stack;
 	action_stack_element *ase;
-	guint ase_ndx;
+	guint ase_ndx, regex_stack_len;
 	liHandlerResult res;
 	gboolean condres;
 	liServer *srv = vr->wrk->srv;
@@ -383,7 +383,9 @@ liHandlerResult li_action_execute(liVRequest *vr) {
 			break;
 		case LI_ACTION_TCONDITION:
 			condres = FALSE;
+			regex_stack_len = as->regex_stack->len;
 			res = li_condition_check(vr, a->data.condition.cond, &condres);
+			ase->regex_pushed = (as->regex_stack->len > regex_stack_len);
 			switch (res) {
 			case LI_HANDLER_GO_ON:
 				ase->finished = TRUE;
-- 
2.43.0


From e5548325166e145d1b034d78ef015aab37ec44ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:24 +0000
Subject: [PATCH 030/114] fix: map with a list of keys crashed for all but the
 first key

---
 src/main/plugin_core.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/plugin_core.c b/src/main/plugin_core.c
index 01464e6..908e104 100644
--- a/src/main/plugin_core.c
+++ b/src/main/plugin_core.c
@@ -1903,7 +1903,7 @@ static liAction* core_map(liServer *srv, liWorker *wrk, liPlugin* p, liValue *va
 					return NULL;
 				}
 
-				g_hash_table_insert(md->hash, li_value_extract_string(v2), li_value_extract(r));
+				g_hash_table_insert(md->hash, li_value_extract_string(v2), li_value_copy(r));
 			LI_VALUE_END_FOREACH()
 		}
 	LI_VALUE_END_FOREACH()
-- 
2.43.0


From e542f3ec25953e8358291e992292f58d9ecb423d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:50 +0000
Subject: [PATCH 031/114] fix: auth files replaced by a file with an older
 modification time were not reloaded

---
 src/modules/mod_auth.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/modules/mod_auth.c b/src/modules/mod_auth.c
index 89c66e8..56ab362 100644
--- a/src/modules/mod_auth.c
+++ b/src/modules/mod_auth.c
@@ -49,6 +49,10 @@ struct AuthFile {
 
 	AuthFileData *data;
 	li_tstamp last_stat;
+	/* attributes of the file at the last reload; it may get replaced with a file with an older mtime */
+	time_t last_mtime;
+	off_t last_size;
+	ino_t last_inode;
 
 	gint ttl;
 	li_tstamp next_check; /* unused */
@@ -142,7 +146,12 @@ static AuthFileData* auth_file_get_data(liWorker *wrk, AuthFile *f) {
 		struct stat st;
 		f->next_check = now + f->ttl;
 
-		if (-1 != stat(f->path->str, &st) && st.st_mtime >= f->last_stat - 1) {
+		if (-1 != stat(f->path->str, &st) && (st.st_mtime >= f->last_stat - 1
+				|| st.st_mtime != f->last_mtime || st.st_size != f->last_size || st.st_ino != f->last_inode)) {
+			f->last_mtime = st.st_mtime;
+			f->last_size = st.st_size;
+			f->last_inode = st.st_ino;
+
 			g_mutex_unlock(f->lock);
 
 			/* update without lock held */
-- 
2.43.0


From ab8c823cbb1bd8e8e0dcb5e6689a93e7738534e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:33 +0000
Subject: [PATCH 032/114] fix: limit.con allowed one request more than the
 limit

---
 src/modules/mod_limit.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/mod_limit.c b/src/modules/mod_limit.c
index 76eaef9..f77ad27 100644
--- a/src/modules/mod_limit.c
+++ b/src/modules/mod_limit.c
@@ -235,13 +235,13 @@ static liHandlerResult mod_limit_action_handle(liVRequest *vr, gpointer param, g
 #ifdef GLIB_VERSION_2_30
 		/* since 2.30 g_atomic_int_add does the same as g_atomic_int_exchange_and_add,
 		 * before it didn't return the old value. this fixes the deprecation warning. */
-		if (g_atomic_int_add(&ctx->pool.con, 1) > ctx->limit) {
+		if (g_atomic_int_add(&ctx->pool.con, 1) >= ctx->limit) {
 			g_atomic_int_add(&ctx->pool.con, -1);
 			limit_reached = TRUE;
 			VR_DEBUG(vr, "limit.con: limit reached (%d active connections)", ctx->limit);
 		}
 #else
-		if (g_atomic_int_exchange_and_add(&ctx->pool.con, 1) > ctx->limit) {
+		if (g_atomic_int_exchange_and_add(&ctx->pool.con, 1) >= ctx->limit) {
 			g_atomic_int_add(&ctx->pool.con, -1);
 			limit_reached = TRUE;
 			VR_DEBUG(vr, "limit.con: limit reached (%d active connections)", ctx->limit);
-- 
2.43.0


From 81216f89bb20ce8a9697495d39faf477c616b68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:33 +0000
Subject: [PATCH 033/114] fix: limit.req crashed using a mutex which was never
 created

---
 src/modules/mod_limit.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modules/mod_limit.c b/src/modules/mod_limit.c
index f77ad27..522293e 100644
--- a/src/modules/mod_limit.c
+++ b/src/modules/mod_limit.c
@@ -73,6 +73,7 @@ static mod_limit_context* mod_limit_context_new(mod_limit_context_type type, gin
 	case ML_TYPE_REQ:
 		ctx->pool.req.num = 0;
 		ctx->pool.req.ts = 0;
+		ctx->mutex = g_mutex_new();
 		break;
 	case ML_TYPE_REQ_IP:
 		ctx->pool.req_ip = li_radixtree_new();
-- 
2.43.0


From 9d3075f7b64dbdcb3d647b7646fda4f7422717b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:28 +0000
Subject: [PATCH 034/114] fix: throttle pools stalled when the millisecond
 clock wrapped around

---
 src/main/throttle.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main/throttle.c b/src/main/throttle.c
index e5147a9..ba8e03c 100644
--- a/src/main/throttle.c
+++ b/src/main/throttle.c
@@ -115,14 +115,15 @@ static void throttle_pool_rearm(liWorker *wrk, liThrottlePool *pool, guint now)
 		g_mutex_unlock(pool->rearm_mutex);
 	}
 
-	if (HEDLEY_UNLIKELY(wpool->last_rearm < last)) {
+	/* timestamps wrap around; only compare for equality */
+	if (HEDLEY_UNLIKELY(wpool->last_rearm != last)) {
 		/* distribute wpool->magazine */
 		GList *lnk;
 		guint connections = wpool->connections;
 		gint magazine = g_atomic_int_get(&wpool->magazine);
 		gint supply = magazine / connections;
 		g_atomic_int_add(&wpool->magazine, -supply * connections);
-		wpool->last_rearm = now;
+		wpool->last_rearm = last;
 
 		throttle_debug("throttle_pool_rearm: distribute supply %i on each of %i connections\n",
 			supply, connections);
-- 
2.43.0


From d8a11c49490cb102c89fcc2b52a83d3e1a06f695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:39 +0000
Subject: [PATCH 035/114] fix: io.throttle refilled the magazine for each
 keep-alive request, keep-alive clients were not limited

---
 src/main/throttle.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main/throttle.c b/src/main/throttle.c
index ba8e03c..fe50297 100644
--- a/src/main/throttle.c
+++ b/src/main/throttle.c
@@ -302,6 +302,10 @@ liThrottleState* li_throttle_new(void) {
 
 void li_throttle_set(liWorker *wrk, liThrottleState *state, guint rate, guint burst) {
 	UNUSED(wrk);
+
+	/* keep the magazine if the limits didn't change: don't refill it for each keep-alive request */
+	if (state->single_rate == rate && state->single_burst == burst) return;
+
 	state->single_rate = rate;
 	state->single_burst = burst;
 	state->single_magazine = burst;
-- 
2.43.0


From 0ce5021f8724dad3275a169484ef1216a5d92023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:36 +0000
Subject: [PATCH 036/114] fix: userdir didn't replace a letter placeholder
 which was followed by a character above '9'

---
 src/modules/mod_userdir.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/mod_userdir.c b/src/modules/mod_userdir.c
index b587a04..0b3e9fc 100644
--- a/src/modules/mod_userdir.c
+++ b/src/modules/mod_userdir.c
@@ -197,7 +197,7 @@ static liAction* userdir_create(liServer *srv, liWorker *wrk, liPlugin* p, liVal
 			c_last = c+1;
 			part.type = USERDIR_PART_USERNAME;
 			g_array_append_val(parts, part);
-		} else if (*c == '$' && *(c+1) >= '1' && *(c+2) <= '9') {
+		} else if (*c == '$' && *(c+1) >= '1' && *(c+1) <= '9') {
 			/* letter */
 			if (c - c_last > 0) {
 				/* push last string */
-- 
2.43.0


From 1c72497f07b0f574d8b4ecde685c18ba3af0ea46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:36 +0000
Subject: [PATCH 037/114] fix: vhost.map_regex freed its data with the wrong
 function and used a freed string for invalid parameters

---
 src/modules/mod_vhost.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/modules/mod_vhost.c b/src/modules/mod_vhost.c
index 90a073d..96b00ab 100644
--- a/src/modules/mod_vhost.c
+++ b/src/modules/mod_vhost.c
@@ -216,7 +216,7 @@ static liAction* vhost_map_regex_create(liServer *srv, liWorker *wrk, liPlugin*
 
 		if (LI_VALUE_ACTION != li_value_type(entryValue)) {
 			ERROR(srv, "vhost.map_regex expects a hashtable/key-value list with action values as parameter, %s value given", li_value_type_string(entryValue));
-			vhost_map_free(srv, mrd);
+			vhost_map_regex_free(srv, mrd);
 			return NULL;
 		}
 
@@ -232,7 +232,7 @@ static liAction* vhost_map_regex_create(liServer *srv, liWorker *wrk, liPlugin*
 		if (NULL == entryKeyStr) {
 			if (NULL != mrd->default_action) {
 				ERROR(srv, "%s", "vhost.map_regex: already have a default action");
-				vhost_map_free(srv, mrd);
+				vhost_map_regex_free(srv, mrd);
 				return NULL;
 			}
 			mrd->default_action = li_value_extract(entryValue);
@@ -241,16 +241,17 @@ static liAction* vhost_map_regex_create(liServer *srv, liWorker *wrk, liPlugin*
 			vhost_map_regex_entry map_entry;
 
 			map_entry.regex = g_regex_new(entryKeyStr->str, G_REGEX_RAW | G_REGEX_OPTIMIZE, 0, &err);
-			g_string_free(entryKeyStr, TRUE);
 
 			if (NULL == map_entry.regex) {
 				LI_FORCE_ASSERT(NULL != err);
 				vhost_map_regex_free(srv, mrd);
 				ERROR(srv, "vhost.map_regex: error compiling regex \"%s\": %s", entryKeyStr->str, err->message);
+				g_string_free(entryKeyStr, TRUE);
 				g_error_free(err);
 				return NULL;
 			}
 			LI_FORCE_ASSERT(NULL == err);
+			g_string_free(entryKeyStr, TRUE);
 
 			map_entry.action = li_value_extract(entryValue);
 
-- 
2.43.0


From 37ce1c80cfd91386d847598ea5ecf09bbfef1628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:29 +0000
Subject: [PATCH 038/114] fix: deflate presented a truncated gzip/deflate
 stream as complete response if the backend broke off

---
 src/modules/mod_deflate.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modules/mod_deflate.c b/src/modules/mod_deflate.c
index 4c77772..fcb25d5 100644
--- a/src/modules/mod_deflate.c
+++ b/src/modules/mod_deflate.c
@@ -156,7 +156,8 @@ static liHandlerResult deflate_filter_zlib(liVRequest *vr, liFilter *f) {
 	int rc;
 
 	if (NULL == f->in) {
-		f->out->is_closed = TRUE;
+		/* didn't handle f->in->is_closed? abort forwarding */
+		if (!f->out->is_closed) li_stream_reset(&f->stream);
 		return LI_HANDLER_GO_ON;
 	}
 
-- 
2.43.0


From 4de76573bdd4e5c17da8432498521df07dbd612b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:29 +0000
Subject: [PATCH 039/114] fix: deflate kept back data on flush if it didn't fit
 in the output buffer, and failed for tiny output buffers

---
 src/modules/mod_deflate.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/modules/mod_deflate.c b/src/modules/mod_deflate.c
index fcb25d5..ef05c96 100644
--- a/src/modules/mod_deflate.c
+++ b/src/modules/mod_deflate.c
@@ -128,7 +128,8 @@ static deflate_context_zlib* deflate_context_zlib_create(liVRequest *vr, deflate
 	}
 
 	ctx->buf = g_byte_array_new();
-	g_byte_array_set_size(ctx->buf, conf->output_buffer);
+	/* must be big enough for the gzip header and the flush marker */
+	g_byte_array_set_size(ctx->buf, MAX(conf->output_buffer, 64));
 
 	ctx->is_gzip = is_gzip;
 
@@ -279,11 +280,22 @@ static liHandlerResult deflate_filter_zlib(liVRequest *vr, liFilter *f) {
 	}
 
 	if (l > 0 && 0 == f->in->length && !f->in->is_closed) { /* flush z_stream */
-		rc = deflate(z, Z_SYNC_FLUSH);
-		if (rc != Z_OK && rc != Z_STREAM_END) {
-			if (NULL != vr) VR_ERROR(vr, "deflate error: %s", z->msg);
-			return LI_HANDLER_ERROR;
-		}
+		gboolean buffer_full;
+		do {
+			rc = deflate(z, Z_SYNC_FLUSH);
+			if (rc != Z_OK && rc != Z_STREAM_END) {
+				if (NULL != vr) VR_ERROR(vr, "deflate error: %s", z->msg);
+				return LI_HANDLER_ERROR;
+			}
+
+			/* output buffer full: there might be more pending data */
+			buffer_full = (0 == z->avail_out);
+			if (buffer_full) {
+				li_chunkqueue_append_mem(f->out, ctx->buf->data, ctx->buf->len);
+				z->next_out = ctx->buf->data;
+				z->avail_out = ctx->buf->len;
+			}
+		} while (buffer_full);
 	}
 
 	/* flush output buffer if there is no more data pending */
-- 
2.43.0


From efd7c23d6e8292028a70cfc835cb9efc785ea99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:29 +0000
Subject: [PATCH 040/114] fix: deflate used encodings the client refused with
 q=0 or didn't ask for (name matched as prefix)

---
 src/modules/mod_deflate.c | 37 +++++++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/src/modules/mod_deflate.c b/src/modules/mod_deflate.c
index ef05c96..026a4c4 100644
--- a/src/modules/mod_deflate.c
+++ b/src/modules/mod_deflate.c
@@ -518,10 +518,39 @@ static gboolean cached_handle_etag(liVRequest *vr, gboolean debug, liHttpHeader
 static guint header_to_encoding_mask(const gchar *s) {
 	guint encoding_mask = 0, i;
 
-	for (i = 1; encoding_names[i]; i++) {
-		const gchar *p = strstr(s, encoding_names[i]);
-		if (NULL != p && (p == s || p[-1] == ' ' || p[-1] == ',')) {
-			encoding_mask |= 1 << i;
+	for (;;) {
+		const gchar *name;
+		size_t namelen;
+		gboolean refused = FALSE;
+
+		s += strspn(s, " \t,");
+		if ('\0' == *s) break;
+
+		name = s;
+		namelen = strcspn(s, " \t,;");
+		s += namelen;
+		s += strspn(s, " \t");
+
+		while (';' == *s) { /* parameters: a zero quality value means "not acceptable" */
+			s++;
+			s += strspn(s, " \t");
+			if (('q' == *s || 'Q' == *s) && '=' == s[1] && '0' == s[2]) {
+				const gchar *e = s + 3;
+				if ('.' == *e) {
+					e++;
+					e += strspn(e, "0");
+				}
+				refused = ('\0' == *e || NULL != strchr(" \t,;", *e));
+			}
+			s += strcspn(s, ",;");
+		}
+
+		if (refused) continue;
+
+		for (i = 1; encoding_names[i]; i++) {
+			if (strlen(encoding_names[i]) == namelen && 0 == strncmp(name, encoding_names[i], namelen)) {
+				encoding_mask |= 1 << i;
+			}
 		}
 	}
 
-- 
2.43.0


From b09cf6751e0726aa2db38c4eb12aff3929a16312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:54 +0000
Subject: [PATCH 041/114] fix: crash if an output filter failed while it was
 connected to the response source

---
 src/main/virtualrequest.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/virtualrequest.c b/src/main/virtualrequest.c
index 6e932f3..86fc83e 100644
--- a/src/main/virtualrequest.c
+++ b/src/main/virtualrequest.c
@@ -542,6 +542,8 @@ void li_vrequest_state_machine(liVRequest *vr) {
 			if (NULL != vr->direct_out) vr->direct_out->is_closed = TRUE; /* make sure this is closed for direct responses */
 			if (NULL != vr->filters_out_last) {
 				li_stream_connect(vr->backend_source, vr->filters_out_first);
+				/* a filter might have failed right away */
+				if (LI_VRS_WRITE_CONTENT != vr->state) return;
 				li_stream_connect(vr->filters_out_last, vr->coninfo->resp);
 			} else {
 				/* no filters */
-- 
2.43.0


From acd709d7393c6b91ffb2e592d3a8249fb98d539c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:27 +0000
Subject: [PATCH 042/114] fix: deflate replaced the generated error page with
 an encoded empty body

---
 src/modules/mod_deflate.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/modules/mod_deflate.c b/src/modules/mod_deflate.c
index 026a4c4..2258098 100644
--- a/src/modules/mod_deflate.c
+++ b/src/modules/mod_deflate.c
@@ -602,6 +602,12 @@ static liHandlerResult deflate_handle(liVRequest *vr, gpointer param, gpointer *
 	/* announce that we have looked for accept-encoding */
 	li_http_header_append(vr->response.headers, CONST_STR_LEN("Vary"), CONST_STR_LEN("Accept-Encoding"));
 
+	/* empty error responses get a generated error page; don't hide it behind an encoded empty body */
+	if (vr->response.http_status >= 400 && NULL != vr->backend_source && 0 == vr->backend_source->out->length
+			&& (vr->backend_source->out->is_closed || vr->backend_source->out == vr->direct_out)) {
+		return LI_HANDLER_GO_ON;
+	}
+
 	hh_encoding_entry = li_http_header_find_first(vr->request.headers, CONST_STR_LEN("accept-encoding"));
 	while (hh_encoding_entry) {
 		hh_encoding = (liHttpHeader*) hh_encoding_entry->data;
-- 
2.43.0


From 7f65051bf9ec951cb46156ef8f717e9a72515deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:46 +0000
Subject: [PATCH 043/114] fix: li_chunkqueue_steal_chunk: move memory usage
 between queues sharing a limit

---
 src/main/chunk.c | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/main/chunk.c b/src/main/chunk.c
index 3308d9e..c9d8acc 100644
--- a/src/main/chunk.c
+++ b/src/main/chunk.c
@@ -740,7 +740,7 @@ goffset li_chunkqueue_steal_all(liChunkQueue *out, liChunkQueue *in) {
 /* steal the first chunk from in and append it to out, return number of bytes stolen */
 goffset li_chunkqueue_steal_chunk(liChunkQueue *out, liChunkQueue *in) {
 	liChunk *c;
-	goffset length;
+	goffset length, memlen = 0;
 	GList *l = g_queue_pop_head_link(&in->queue);
 	if (!l) return 0;
 	g_queue_push_tail_link(&out->queue, l);
@@ -751,17 +751,19 @@ goffset li_chunkqueue_steal_chunk(liChunkQueue *out, liChunkQueue *in) {
 	in->length -= length;
 	out->bytes_in += length;
 	out->length += length;
+	if (c->type == STRING_CHUNK) {
+		memlen = c->data.str->len;
+	} else if (c->type == MEM_CHUNK) {
+		memlen = c->mem->len;
+	} else if (c->type == BUFFER_CHUNK) {
+		memlen = c->data.buffer.length;
+	}
 	if (in->limit != out->limit) {
-		if (c->type == STRING_CHUNK) {
-			cqlimit_update(out, c->data.str->len);
-			cqlimit_update(in, - (goffset)c->data.str->len);
-		} else if (c->type == MEM_CHUNK) {
-			cqlimit_update(out, c->mem->len);
-			cqlimit_update(in, - (goffset)c->mem->len);
-		} else if (c->type == BUFFER_CHUNK) {
-			cqlimit_update(out, c->data.buffer.length);
-			cqlimit_update(in, - (goffset)c->data.buffer.length);
-		}
+		cqlimit_update(out, memlen);
+		cqlimit_update(in, -memlen);
+	} else {
+		out->mem_usage += memlen;
+		in->mem_usage -= memlen;
 	}
 	return length;
 }
-- 
2.43.0


From fa5a4b6c09af34d5c61934f9a15d6502a28139b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:46 +0000
Subject: [PATCH 044/114] fix: li_chunkqueue_extract_to_memory: don't treat the
 destination as GByteArray after a read error

---
 src/main/chunk.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/main/chunk.c b/src/main/chunk.c
index c9d8acc..fafc6c9 100644
--- a/src/main/chunk.c
+++ b/src/main/chunk.c
@@ -870,7 +870,6 @@ gboolean li_chunkqueue_extract_to_memory(liChunkQueue *cq, goffset len, void *de
 	return TRUE;
 
 error:
-	g_byte_array_set_size(dest, 0);
 	return FALSE;
 }
 
-- 
2.43.0


From c30535a96ee5038f3936dd13ed552663aa14ec1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:48 +0000
Subject: [PATCH 045/114] fix: mod_expire: periods above 68 years gave a
 negative max-age

---
 src/modules/mod_expire.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/modules/mod_expire.c b/src/modules/mod_expire.c
index 9734752..17bd069 100644
--- a/src/modules/mod_expire.c
+++ b/src/modules/mod_expire.c
@@ -21,7 +21,7 @@ struct expire_rule {
 		EXPIRE_ACCESS,
 		EXPIRE_MODIFICATION
 	} base;
-	guint num;
+	guint64 num;
 };
 typedef struct expire_rule expire_rule;
 
@@ -30,10 +30,10 @@ static liHandlerResult expire(liVRequest *vr, gpointer param, gpointer *context)
 	struct tm tm;
 	time_t expire_date;
 	guint len;
-	gint max_age;
+	gint64 max_age;
 	GString *date_str = vr->wrk->tmp_str;
 	expire_rule *rule = param;
-	guint num = rule->num;
+	guint64 num = rule->num;
 	time_t now = (time_t)li_cur_ts(vr->wrk);
 
 	UNUSED(context);
@@ -133,7 +133,7 @@ static liAction* expire_create(liServer *srv, liWorker *wrk, liPlugin* p, liValu
 
 	/* parse (<num> <type>)+ */
 	while (*str) {
-		guint num;
+		guint64 num;
 		/* parse <num> */
 		num = 0;
 
-- 
2.43.0


From 7bb5be233fe6a28b77b91a5a804719d19d9194df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:48 +0000
Subject: [PATCH 046/114] fix: mod_dirlist: html-encode the path shown in title
 and heading

---
 src/modules/mod_dirlist.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/modules/mod_dirlist.c b/src/modules/mod_dirlist.c
index 2a99e6b..36d59a4 100644
--- a/src/modules/mod_dirlist.c
+++ b/src/modules/mod_dirlist.c
@@ -431,7 +431,8 @@ static liHandlerResult dirlist(liVRequest *vr, gpointer param, gpointer *context
 		}
 
 		listing = g_string_sized_new(4*1024-1);
-		g_string_append_printf(listing, html_header_start, vr->request.uri.path->str);
+		li_string_encode(vr->request.uri.path->str, encoded, LI_ENCODING_HTML);
+		g_string_append_printf(listing, html_header_start, encoded->str);
 
 		if (dd->css) {
 			/* custom css */
@@ -446,7 +447,8 @@ static liHandlerResult dirlist(liVRequest *vr, gpointer param, gpointer *context
 
 		try_append_file(vr, &listing, "HEADER.txt", dd->encode_header);
 
-		g_string_append_printf(listing, html_table_start, vr->request.uri.path->str);
+		li_string_encode(vr->request.uri.path->str, encoded, LI_ENCODING_HTML);
+		g_string_append_printf(listing, html_table_start, encoded->str);
 
 		if (0 != strcmp("/", vr->request.uri.path->str)) {
 			g_string_append_printf(listing, html_table_row, '0', "../",
-- 
2.43.0


From ca6c8a3196c27947061198d4ede1ee49bfab51ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:48 +0000
Subject: [PATCH 047/114] fix: mod_dirlist: obey include-header,
 include-readme, hide-header and hide-readme

---
 src/modules/mod_dirlist.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/modules/mod_dirlist.c b/src/modules/mod_dirlist.c
index 36d59a4..522c153 100644
--- a/src/modules/mod_dirlist.c
+++ b/src/modules/mod_dirlist.c
@@ -421,9 +421,9 @@ static liHandlerResult dirlist(liVRequest *vr, gpointer param, gpointer *context
 				if (dd->hide_directories) continue;
 				g_array_append_val(directories, i);
 			} else {
-				if ((dd->include_header || dd->hide_header) && g_str_equal(sced->path, "HEADER.txt")) {
+				if ((dd->include_header || dd->hide_header) && g_str_equal(sced->path->str, "HEADER.txt")) {
 					if (dd->hide_header) continue;
-				} else if ((dd->include_readme || dd->hide_readme) && g_str_equal(sced->path, "README.txt")) {
+				} else if ((dd->include_readme || dd->hide_readme) && g_str_equal(sced->path->str, "README.txt")) {
 					if (dd->hide_readme) continue;
 				}
 				g_array_append_val(files, i);
@@ -445,7 +445,7 @@ static liHandlerResult dirlist(liVRequest *vr, gpointer param, gpointer *context
 		}
 		li_g_string_append_len(listing, CONST_STR_LEN(html_header_end));
 
-		try_append_file(vr, &listing, "HEADER.txt", dd->encode_header);
+		if (dd->include_header) try_append_file(vr, &listing, "HEADER.txt", dd->encode_header);
 
 		li_string_encode(vr->request.uri.path->str, encoded, LI_ENCODING_HTML);
 		g_string_append_printf(listing, html_table_start, encoded->str);
@@ -528,7 +528,7 @@ static liHandlerResult dirlist(liVRequest *vr, gpointer param, gpointer *context
 
 		li_g_string_append_len(listing, CONST_STR_LEN(html_table_end));
 
-		try_append_file(vr, &listing, "README.txt", dd->encode_readme);
+		if (dd->include_readme) try_append_file(vr, &listing, "README.txt", dd->encode_readme);
 
 		if (dd->include_sort) {
 			li_g_string_append_len(listing, CONST_STR_LEN(javascript_sort));
-- 
2.43.0


From d641f9827409ff5672011254707cd3a0c168a759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:37 +0000
Subject: [PATCH 048/114] fix: mod_dirlist: a directory named HEADER.txt or
 README.txt broke listings with unencoded includes

---
 src/modules/mod_dirlist.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/modules/mod_dirlist.c b/src/modules/mod_dirlist.c
index 522c153..2ff9a36 100644
--- a/src/modules/mod_dirlist.c
+++ b/src/modules/mod_dirlist.c
@@ -223,6 +223,10 @@ static void try_append_file(liVRequest *vr, GString **curbuf, const gchar *filen
 			close(fd);
 			return; /* failed to open, ignore */
 		}
+		if (!S_ISREG(st.st_mode)) {
+			close(fd);
+			return; /* not a file, ignore */
+		}
 		if (st.st_size > MAX_INCLUDE_FILE_SIZE) {
 			close(fd);
 			return; /* file too big, ignore */
-- 
2.43.0


From 02e88508c1f9dc4df7239a6399207d20f580a428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:37 +0000
Subject: [PATCH 049/114] fix: mod_dirlist: don't use the stat cache entry
 after releasing it

---
 src/modules/mod_dirlist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/mod_dirlist.c b/src/modules/mod_dirlist.c
index 2ff9a36..2322977 100644
--- a/src/modules/mod_dirlist.c
+++ b/src/modules/mod_dirlist.c
@@ -339,7 +339,7 @@ static liHandlerResult dirlist(liVRequest *vr, gpointer param, gpointer *context
 			vr->response.http_status = 403;
 			return LI_HANDLER_GO_ON;
 		default:
-			VR_ERROR(vr, "stat('%s') failed: %s", sce->data.path->str, g_strerror(sce->data.err));
+			VR_ERROR(vr, "stat('%s') failed: %s", vr->physical.path->str, g_strerror(e));
 			if (!li_vrequest_handle_direct(vr)) return LI_HANDLER_ERROR;
 			vr->response.http_status = 500;
 			return LI_HANDLER_GO_ON;
-- 
2.43.0


From 72bea8093aaee993f9329f7d26406018179f2e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:39 +0000
Subject: [PATCH 050/114] fix: mod_status: html-encode host, path and query of
 listed connections

---
 src/modules/mod_status.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/modules/mod_status.c b/src/modules/mod_status.c
index a30fddb..43e0de6 100644
--- a/src/modules/mod_status.c
+++ b/src/modules/mod_status.c
@@ -733,6 +733,7 @@ static GString *status_info_full(liVRequest *vr, liPlugin *p, gboolean short_inf
 	if (!short_info) {
 		GString *ts_started, *ts_timeout, *bytes_in, *bytes_out, *bytes_in_5s, *bytes_out_5s;
 		GString *req_len, *resp_len;
+		GString *enc_host, *enc_path, *enc_query;
 
 		ts_started = g_string_sized_new(15);
 		ts_timeout = g_string_sized_new(15);
@@ -742,6 +743,9 @@ static GString *status_info_full(liVRequest *vr, liPlugin *p, gboolean short_inf
 		bytes_out_5s = g_string_sized_new(10);
 		req_len = g_string_sized_new(10);
 		resp_len = g_string_sized_new(10);
+		enc_host = g_string_sized_new(63);
+		enc_path = g_string_sized_new(63);
+		enc_query = g_string_sized_new(63);
 
 		li_g_string_append_len(html, CONST_STR_LEN("<div class=\"title\"><strong>Active connections</strong></div>\n"));
 		li_g_string_append_len(html, CONST_STR_LEN(html_connections_th));
@@ -760,13 +764,18 @@ static GString *status_info_full(liVRequest *vr, liPlugin *p, gboolean short_inf
 				li_counter_format(cd->request_size, COUNTER_BYTES, req_len);
 				li_counter_format(cd->response_size, COUNTER_BYTES, resp_len);
 
+				/* data from the client */
+				li_string_encode(cd->host->str, enc_host, LI_ENCODING_HTML);
+				li_string_encode(cd->path->str, enc_path, LI_ENCODING_HTML);
+				li_string_encode(cd->query->str, enc_query, LI_ENCODING_HTML);
+
 				g_string_append_printf(html, html_connections_row,
 					cd->remote_addr_str->str,
 					li_connection_state_str(cd->state),
-					cd->host->str,
-					cd->path->str,
+					enc_host->str,
+					enc_path->str,
 					cd->query->len ? "?":"",
-					cd->query->len ? cd->query->str : "",
+					enc_query->str,
 					cd->ts_started, ts_started->str,
 					cd->ts_timeout, cd->ts_timeout < 0 ? "" : ts_timeout->str,
 					cd->bytes_in, bytes_in->str,
@@ -790,6 +799,9 @@ static GString *status_info_full(liVRequest *vr, liPlugin *p, gboolean short_inf
 		g_string_free(bytes_out_5s, TRUE);
 		g_string_free(req_len, TRUE);
 		g_string_free(resp_len, TRUE);
+		g_string_free(enc_host, TRUE);
+		g_string_free(enc_path, TRUE);
+		g_string_free(enc_query, TRUE);
 	}
 
 	li_g_string_append_len(html, CONST_STR_LEN(
-- 
2.43.0


From 774dfb6b3ea328bcfe50d3deec16333e16b31e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:23 +0000
Subject: [PATCH 051/114] fix: html encoding: encode quotes, encoded text is
 used in attribute values

---
 src/common/encoding.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/encoding.c b/src/common/encoding.c
index 899a483..b9cba5a 100644
--- a/src/common/encoding.c
+++ b/src/common/encoding.c
@@ -33,7 +33,7 @@ static const gchar encode_map_html[] = {
 	*/
 	1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, /* 00 - 0F control chars */
 	1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, /* 10 - 1F */
-	0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, /* 20 - 2F & */
+	0, 0, 1, 0, 0, 0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, /* 20 - 2F " & ' */
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 1, 0, /* 30 - 3F < > */
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, /* 40 - 40 */
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, /* 50 - 50 */
-- 
2.43.0


From 432458e55e81bf32274d67f9593742fcffeebf54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:32 +0000
Subject: [PATCH 052/114] fix: mod_balance: a nested balancer without usable
 backend reports it to the outer balancer instead of holding the request

---
 src/modules/mod_balance.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/modules/mod_balance.c b/src/modules/mod_balance.c
index fef48d3..e3e3eb1 100644
--- a/src/modules/mod_balance.c
+++ b/src/modules/mod_balance.c
@@ -329,6 +329,10 @@ static liHandlerResult balancer_act_select(liVRequest *vr, gboolean backlog_prov
 		} else {
 			li_vrequest_backend_overloaded(vr);
 		}
+
+		g_mutex_unlock(b->lock);
+
+		return LI_HANDLER_GO_ON;
 	}
 
 	/* don't backlog scheduled requests */
@@ -406,7 +410,7 @@ static liHandlerResult balancer_act_select(liVRequest *vr, gboolean backlog_prov
 			_balancer_backlog_update_watcher(vr->wrk, b);
 		}
 
-		if (-1 == b->backlog_limit || (gint)b->backlog.length < b->backlog_limit) {
+		if (!backlog_provided && (-1 == b->backlog_limit || (gint)b->backlog.length < b->backlog_limit)) {
 			_balancer_context_backlog_push(b, context, vr);
 
 			g_mutex_unlock(b->lock);
-- 
2.43.0


From bb5ce097c37c78c20dc2144369e8d6f2ee3881e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:29 +0000
Subject: [PATCH 053/114] fix: close the socket of a backend connect that timed
 out

---
 src/main/backends.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/backends.c b/src/main/backends.c
index 4aa0932..f47fe74 100644
--- a/src/main/backends.c
+++ b/src/main/backends.c
@@ -294,8 +294,9 @@ static void backend_pool_worker_connect_timeout(liWaitQueue *wq, gpointer data)
 
 	while (NULL != (elem = li_waitqueue_pop(wq))) {
 		liBackendConnection_p *con = LI_CONTAINER_OF(elem, liBackendConnection_p, timeout_elem);
+		int fd = li_event_io_fd(&con->public.watcher);
 		li_event_clear(&con->public.watcher);
-		close(li_event_io_fd(&con->public.watcher));
+		close(fd);
 		g_slice_free(liBackendConnection_p, con);
 
 		ERROR(srv, "Couldn't connect to '%s': timeout",
-- 
2.43.0


From f36d607ff10c7dc9460b8503db29982d870bca93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:33 +0000
Subject: [PATCH 054/114] fix: keepalive.requests works when set as option, and
 counts the requests of a connection

---
 src/main/connection.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/main/connection.c b/src/main/connection.c
index d7085f0..b250f72 100644
--- a/src/main/connection.c
+++ b/src/main/connection.c
@@ -247,9 +247,6 @@ static void _connection_http_in_cb(liStream *stream, liStreamEvent event) {
 		li_event_stop(&con->keep_alive_data.watcher);
 
 		con->keep_alive_requests++;
-		/* disable keep alive if limit is reached */
-		if (con->keep_alive_requests == CORE_OPTION(LI_CORE_OPTION_MAX_KEEP_ALIVE_REQUESTS).number)
-			con->info.keep_alive = FALSE;
 
 		/* reopen stream for request body */
 		li_chunkqueue_reset(in);
@@ -432,6 +429,11 @@ static void _connection_http_out_cb(liStream *stream, liStreamEvent event) {
 			if (0 == CORE_OPTION(LI_CORE_OPTION_MAX_KEEP_ALIVE_IDLE).number) {
 				con->info.keep_alive = FALSE;
 			}
+			/* disable keep alive if limit is reached; the first request isn't included in keep_alive_requests */
+			if (CORE_OPTION(LI_CORE_OPTION_MAX_KEEP_ALIVE_REQUESTS).number > 0
+			    && con->keep_alive_requests + 1 >= CORE_OPTION(LI_CORE_OPTION_MAX_KEEP_ALIVE_REQUESTS).number) {
+				con->info.keep_alive = FALSE;
+			}
 			/* complete response before the request body was received: can't keep the connection */
 			if ((NULL == out || out->is_closed) && connection_request_body_pending(con)) {
 				con->info.keep_alive = FALSE;
-- 
2.43.0


From a0592667824852975074e59663b7463eb708e422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:33 +0000
Subject: [PATCH 055/114] fix: config: * and / on integers multiply and divide
 instead of adding

---
 src/main/config_parser.rl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/config_parser.rl b/src/main/config_parser.rl
index c2b2f48..e394d2f 100644
--- a/src/main/config_parser.rl
+++ b/src/main/config_parser.rl
@@ -790,7 +790,7 @@ static gboolean op_execute(liValue **vresult, liConfigToken op, liValue *v1, liV
 					parse_error(ctx, error, "overflow in product");
 					goto error;
 				}
-				*vresult = li_value_new_number(v1->data.number + v2->data.number);
+				*vresult = li_value_new_number(v1->data.number * v2->data.number);
 				break;
 			case TK_DIVIDE:
 				if (0 == v2->data.number) {
@@ -801,7 +801,7 @@ static gboolean op_execute(liValue **vresult, liConfigToken op, liValue *v1, liV
 					parse_error(ctx, error, "overflow in quotient");
 					goto error;
 				}
-				*vresult = li_value_new_number(v1->data.number + v2->data.number);
+				*vresult = li_value_new_number(v1->data.number / v2->data.number);
 				break;
 			default:
 				parse_error(ctx, error, "unsupported operation on numbers");
-- 
2.43.0


From a9170481613d4865eddbd9f0a2f7aa82c226b898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:33 +0000
Subject: [PATCH 056/114] fix: config: keep the sign of integers, detect
 overflow by suffixes and only that, refuse digits 8 and 9 in octal numbers

---
 src/main/config_parser.rl | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/main/config_parser.rl b/src/main/config_parser.rl
index e394d2f..35be020 100644
--- a/src/main/config_parser.rl
+++ b/src/main/config_parser.rl
@@ -220,12 +220,12 @@ GQuark li_config_error_quark(void) {
 	action dec_digit {
 		gint64 digit = fc - '0';
 		if (ctx->negative) {
-			if (ctx->token_number < G_MININT64 / 10 + digit) {
+			if (ctx->token_number < (G_MININT64 + digit) / 10) {
 				return tokenizer_error(ctx, error, "integer overflow");
 			}
 			ctx->token_number = 10*ctx->token_number - digit;
 		} else {
-			if (ctx->token_number > G_MAXINT64 / 10 - digit) {
+			if (ctx->token_number > (G_MAXINT64 - digit) / 10) {
 				return tokenizer_error(ctx, error, "integer overflow");
 			}
 			ctx->token_number = 10*ctx->token_number + digit;
@@ -234,12 +234,12 @@ GQuark li_config_error_quark(void) {
 	action oct_digit {
 		gint64 digit = fc - '0';
 		if (ctx->negative) {
-			if (ctx->token_number < G_MININT64 / 8 + digit) {
+			if (ctx->token_number < (G_MININT64 + digit) / 8) {
 				return tokenizer_error(ctx, error, "integer overflow");
 			}
 			ctx->token_number = 8*ctx->token_number - digit;
 		} else {
-			if (ctx->token_number > G_MAXINT64 / 8 - digit) {
+			if (ctx->token_number > (G_MAXINT64 - digit) / 8) {
 				return tokenizer_error(ctx, error, "integer overflow");
 			}
 			ctx->token_number = 8*ctx->token_number + digit;
@@ -251,12 +251,12 @@ GQuark li_config_error_quark(void) {
 		else if (fc >= 'a' && fc <= 'f') digit = fc - 'a' + 10;
 		else /*if (fc >= 'A' && fc <= 'F')*/ digit = fc - 'A' + 10;
 		if (ctx->negative) {
-			if (ctx->token_number < G_MININT64 / 16 + digit) {
+			if (ctx->token_number < (G_MININT64 + digit) / 16) {
 				return tokenizer_error(ctx, error, "integer overflow");
 			}
 			ctx->token_number = 16*ctx->token_number - digit;
 		} else {
-			if (ctx->token_number > G_MAXINT64 / 16 - digit) {
+			if (ctx->token_number > (G_MAXINT64 - digit) / 16) {
 				return tokenizer_error(ctx, error, "integer overflow");
 			}
 			ctx->token_number = 16*ctx->token_number + digit;
@@ -267,7 +267,7 @@ GQuark li_config_error_quark(void) {
 			if (ctx->token_number < G_MININT64 / ctx->suffix_factor) {
 				return tokenizer_error(ctx, error, "integer overflow in suffix");
 			}
-		} else if (ctx->token_number < 0) {
+		} else {
 			if (ctx->token_number > G_MAXINT64 / ctx->suffix_factor) {
 				return tokenizer_error(ctx, error, "integer overflow in suffix");
 			}
@@ -316,12 +316,12 @@ GQuark li_config_error_quark(void) {
 		| 'days'    %{ ctx->suffix_factor = G_GINT64_CONSTANT(24)*3600; }
 		);
 	integer_suffix = ( integer_suffix_bytes | integer_suffix_bits | integer_suffix_seconds ) %integer_suffix;
-	integer_base = ('-'@int_negative)?
+	integer_base = ( ('-'@int_negative)?
 		( ([1-9] [0-9]*)$dec_digit
 		| '0'
-		| '0' ([0-9]+)$oct_digit
+		| '0' ([0-7]+)$oct_digit
 		| '0x' (xdigit+)$hex_digit
-		)>int_start;
+		) )>int_start;
 	# noise_char only matches after integer_suffix, as noise matches all noise chars greedy
 	integer = (integer_base noise integer_suffix?)%integer (noise_char | operator_char);
 
-- 
2.43.0


From 933f1ae153351884532e30a312be13fde5d61773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:33 +0000
Subject: [PATCH 057/114] fix: config: support e"..." strings as documented

---
 src/main/config_parser.rl | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main/config_parser.rl b/src/main/config_parser.rl
index 35be020..bc21f98 100644
--- a/src/main/config_parser.rl
+++ b/src/main/config_parser.rl
@@ -350,7 +350,11 @@ GQuark li_config_error_quark(void) {
 		| 'true'          %{ return TK_TRUE; }
 		) %(identifier, 1) (noise_char | operator_char)?;
 
-	name = ( (alpha | '_') (alnum | [._])* - keywords) >mark %name (noise_char | operator_char)?;
+	# an 'e' directly in front of a quote starts an e"..." string
+	name =
+		( ( (alpha | '_') (alnum | [._])* - keywords - 'e' ) >mark %name (noise_char | operator_char)?
+		| 'e' >mark %name (noise_char | ( operator_char - ('"' | "'") ))?
+		);
 
 	cast =
 		( 'cast' noise '(' noise 'int' noise ')'      @{ ++fpc; return TK_CAST_INT; }
-- 
2.43.0


From e80d9d1a885b0af6c4a5e48442dfc24f68012074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:33 +0000
Subject: [PATCH 058/114] fix: config: do not use the value after it was freed
 when cast(int) fails

---
 src/main/config_parser.rl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/config_parser.rl b/src/main/config_parser.rl
index bc21f98..62827a9 100644
--- a/src/main/config_parser.rl
+++ b/src/main/config_parser.rl
@@ -1380,8 +1380,9 @@ static gboolean p_value(gint *key_value_nesting, liValue **value, liConfigToken
 				errno = 0;
 				i = g_ascii_strtoll(s->str, &endptr, 10);
 				if (errno != 0 || endptr != s->str + s->len || s->len == 0) {
+					parse_error(ctx, error, "cast(int) failed, not a valid number: '%s'", s->str);
 					li_value_free(v);
-					return parse_error(ctx, error, "cast(int) failed, not a valid number: '%s'", s->str);
+					return FALSE;
 				}
 				li_value_free(v);
 				v = li_value_new_number(i);
-- 
2.43.0


From 6c92097eb76d381380070edfcea14df9304260b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:02 +0000
Subject: [PATCH 059/114] fix: config: accept a comment without line end at the
 end of the file

---
 src/main/config_parser.rl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/config_parser.rl b/src/main/config_parser.rl
index 62827a9..b6a169b 100644
--- a/src/main/config_parser.rl
+++ b/src/main/config_parser.rl
@@ -397,7 +397,8 @@ GQuark li_config_error_quark(void) {
 		| '=>'   %{ return TK_ASSOCIATE; }
 		) (noise_char | operator_separator_char | alnum | '_' | '"' | "'")?;
 
-	endoffile = '' %{ fpc = NULL; return TK_EOF; };
+	# the last line may be a comment without line end
+	endoffile = ( '#' (any - line)* )? %{ fpc = NULL; return TK_EOF; };
 
 	token :=
 		noise
-- 
2.43.0


From 7defa834c64ea9b1b32ef0656bff6359e1ed353b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:49 +0000
Subject: [PATCH 060/114] fix: config: report conditions with invalid values as
 error instead of aborting

---
 src/main/config_parser.rl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main/config_parser.rl b/src/main/config_parser.rl
index b6a169b..6acbd1a 100644
--- a/src/main/config_parser.rl
+++ b/src/main/config_parser.rl
@@ -1725,6 +1725,9 @@ static gboolean p_condition_value(liConditionTree **tree, liConfigTokenizerConte
 	}
 	li_value_free(rvalue);
 
+	/* invalid combination of operator and value, or invalid regex / ip address */
+	if (NULL == cond) return parse_error(ctx, error, "invalid condition");
+
 boolcond:
 
 	*tree = g_slice_new0(liConditionTree);
-- 
2.43.0


From b09a80c93999b0cffb0fb55e878423f080725bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:51 +0000
Subject: [PATCH 061/114] fix: config: refuse abbreviated and empty names of
 condition variables

---
 src/main/condition.c | 50 ++++++++++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 23 deletions(-)

diff --git a/src/main/condition.c b/src/main/condition.c
index 13c1d0a..0ffbafb 100644
--- a/src/main/condition.c
+++ b/src/main/condition.c
@@ -494,6 +494,10 @@ const char* li_cond_lvalue_to_string(liCondLValue t) {
 	return "<unknown>";
 }
 
+static gboolean lvalue_is(const gchar *str, guint len, const gchar *name) {
+	return strlen(name) == len && 0 == memcmp(str, name, len);
+}
+
 liCondLValue li_cond_lvalue_from_string(const gchar *str, guint len) {
 	gchar *c = (gchar*)str;
 
@@ -508,33 +512,33 @@ liCondLValue li_cond_lvalue_from_string(const gchar *str, guint len) {
 			return LI_COMP_UNKNOWN;
 		}
 
-		if (strncmp(c, "localip", len) == 0)
+		if (lvalue_is(c, len, "localip"))
 			return LI_COMP_REQUEST_LOCALIP;
-		else if (strncmp(c, "localport", len) == 0)
+		else if (lvalue_is(c, len, "localport"))
 			return LI_COMP_REQUEST_LOCALPORT;
-		else if (strncmp(c, "remoteip", len) == 0)
+		else if (lvalue_is(c, len, "remoteip"))
 			return LI_COMP_REQUEST_REMOTEIP;
-		else if (strncmp(c, "remoteport", len) == 0)
+		else if (lvalue_is(c, len, "remoteport"))
 			return LI_COMP_REQUEST_REMOTEPORT;
-		else if (strncmp(c, "path", len) == 0)
+		else if (lvalue_is(c, len, "path"))
 			return LI_COMP_REQUEST_PATH;
-		else if (strncmp(c, "raw_path", len) == 0)
+		else if (lvalue_is(c, len, "raw_path"))
 			return LI_COMP_REQUEST_RAW_PATH;
-		else if (strncmp(c, "host", len) == 0)
+		else if (lvalue_is(c, len, "host"))
 			return LI_COMP_REQUEST_HOST;
-		else if (strncmp(c, "scheme", len) == 0)
+		else if (lvalue_is(c, len, "scheme"))
 			return LI_COMP_REQUEST_SCHEME;
-		else if (strncmp(c, "query", len) == 0)
+		else if (lvalue_is(c, len, "query"))
 			return LI_COMP_REQUEST_QUERY_STRING;
-		else if (strncmp(c, "method", len) == 0)
+		else if (lvalue_is(c, len, "method"))
 			return LI_COMP_REQUEST_METHOD;
-		else if (strncmp(c, "length", len) == 0)
+		else if (lvalue_is(c, len, "length"))
 			return LI_COMP_REQUEST_CONTENT_LENGTH;
-		else if (strncmp(c, "header", len) == 0)
+		else if (lvalue_is(c, len, "header"))
 			return LI_COMP_REQUEST_HEADER;
-		else if (strncmp(c, "environment", len) == 0 || strncmp(c, "env", len) == 0)
+		else if (lvalue_is(c, len, "environment") || lvalue_is(c, len, "env"))
 			return LI_COMP_ENVIRONMENT;
-		else if (strncmp(c, "is_handled", len) == 0)
+		else if (lvalue_is(c, len, "is_handled"))
 			return LI_COMP_REQUEST_IS_HANDLED;
 	} else if (g_str_has_prefix(c, "phys")) {
 		if (g_str_has_prefix(c, "phys.")) {
@@ -547,19 +551,19 @@ liCondLValue li_cond_lvalue_from_string(const gchar *str, guint len) {
 			return LI_COMP_UNKNOWN;
 		}
 
-		if (strncmp(c, "path", len) == 0)
+		if (lvalue_is(c, len, "path"))
 			return LI_COMP_PHYSICAL_PATH;
-		else if (strncmp(c, "exists", len) == 0)
+		else if (lvalue_is(c, len, "exists"))
 			return LI_COMP_PHYSICAL_EXISTS;
-		else if (strncmp(c, "size", len) == 0)
+		else if (lvalue_is(c, len, "size"))
 			return LI_COMP_PHYSICAL_SIZE;
-		else if (strncmp(c, "is_file", len) == 0)
+		else if (lvalue_is(c, len, "is_file"))
 			return LI_COMP_PHYSICAL_ISFILE;
-		else if (strncmp(c, "is_dir", len) == 0)
+		else if (lvalue_is(c, len, "is_dir"))
 			return LI_COMP_PHYSICAL_ISDIR;
-		else if (strncmp(c, "docroot", len) == 0)
+		else if (lvalue_is(c, len, "docroot"))
 			return LI_COMP_PHYSICAL_DOCROOT;
-		else if (strncmp(c, "pathinfo", len) == 0)
+		else if (lvalue_is(c, len, "pathinfo"))
 			return LI_COMP_PHYSICAL_PATHINFO;
 	} else if (g_str_has_prefix(c, "resp")) {
 		if (g_str_has_prefix(c, "resp.")) {
@@ -572,9 +576,9 @@ liCondLValue li_cond_lvalue_from_string(const gchar *str, guint len) {
 			return LI_COMP_UNKNOWN;
 		}
 
-		if (strncmp(c, "status", len) == 0)
+		if (lvalue_is(c, len, "status"))
 			return LI_COMP_RESPONSE_STATUS;
-		else if (strncmp(c, "header", len) == 0)
+		else if (lvalue_is(c, len, "header"))
 			return LI_COMP_RESPONSE_HEADER;
 	}
 
-- 
2.43.0


From 1e9a14b600553c6d9146f5c94008fbb2ff507ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:29 +0000
Subject: [PATCH 062/114] fix: patterns: refuse header and environment
 variables without key

---
 src/main/pattern.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/main/pattern.c b/src/main/pattern.c
index 6c40445..510d492 100644
--- a/src/main/pattern.c
+++ b/src/main/pattern.c
@@ -130,6 +130,7 @@ liPattern *li_pattern_new(liServer *srv, const gchar* str) {
 				/* %{var}, PATTERN_VAR */
 				const gchar *lval_c, *lval_start;
 				guint lval_len = 0;
+				liCondLValue lval_type;
 				GString *key = NULL;
 
 				lval_c = c+1;
@@ -179,7 +180,15 @@ liPattern *li_pattern_new(liServer *srv, const gchar* str) {
 					return NULL;
 				}
 
-				part.data.lvalue = li_condition_lvalue_new(li_cond_lvalue_from_string(lval_start, lval_len), key);
+				lval_type = li_cond_lvalue_from_string(lval_start, lval_len);
+				if (NULL == key && (LI_COMP_REQUEST_HEADER == lval_type || LI_COMP_RESPONSE_HEADER == lval_type || LI_COMP_ENVIRONMENT == lval_type)) {
+					/* parse error */
+					ERROR(srv, "could not parse pattern (missing key): \"%s\"", str);
+					li_pattern_free((liPattern*)pattern);
+					return NULL;
+				}
+
+				part.data.lvalue = li_condition_lvalue_new(lval_type, key);
 				part.type = encoded ? PATTERN_VAR_ENCODED : PATTERN_VAR;
 				g_array_append_val(pattern, part);
 				c++;
-- 
2.43.0


From 28eedf8a7f084bf908cf1362f54210cbfbb33b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:04 +0000
Subject: [PATCH 063/114] fix: accesslog: escape bytes above 0x7f as \xHH; the
 digits were calculated from a signed char and could even be a quote

---
 src/modules/mod_accesslog.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/mod_accesslog.c b/src/modules/mod_accesslog.c
index 8b34e33..99f0087 100644
--- a/src/modules/mod_accesslog.c
+++ b/src/modules/mod_accesslog.c
@@ -124,9 +124,9 @@ static void al_append_escaped(GString *log, GString *str) {
 			} else {
 				/* non printable char => \xHH */
 				gchar hh[5] = {'\\','x',0,0,0};
-				gchar h = str->str[i] / 16;
+				guchar c = (guchar) str->str[i], h = c / 16;
 				hh[2] = (h > 9) ? (h - 10 + 'A') : (h + '0');
-				h = str->str[i] % 16;
+				h = c % 16;
 				hh[3] = (h > 9) ? (h - 10 + 'A') : (h + '0');
 				li_g_string_append_len(log, &hh[0], 4);
 			}
-- 
2.43.0


From a9424df9dc91911e0117cd3afdc74a17e0e74156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:04 +0000
Subject: [PATCH 064/114] fix: accesslog: %b is the CLF variant of %B as
 documented, not the other way around

---
 src/modules/mod_accesslog.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/mod_accesslog.c b/src/modules/mod_accesslog.c
index 99f0087..b53ed2b 100644
--- a/src/modules/mod_accesslog.c
+++ b/src/modules/mod_accesslog.c
@@ -76,8 +76,8 @@ static const al_format al_format_mapping[] = {
 	{ '%', FALSE, AL_FORMAT_PERCENT },
 	{ 'a', FALSE, AL_FORMAT_REMOTE_ADDR },
 	{ 'A', FALSE, AL_FORMAT_LOCAL_ADDR },
-	{ 'b', FALSE, AL_FORMAT_BYTES_RESPONSE },
-	{ 'B', FALSE, AL_FORMAT_BYTES_RESPONSE_CLF },
+	{ 'b', FALSE, AL_FORMAT_BYTES_RESPONSE_CLF },
+	{ 'B', FALSE, AL_FORMAT_BYTES_RESPONSE },
 	{ 'C', FALSE, AL_FORMAT_COOKIE },
 	{ 'D', FALSE, AL_FORMAT_DURATION_MICROSECONDS },
 	{ 'e', TRUE, AL_FORMAT_ENV },
-- 
2.43.0


From 622c3602b598f7db91fe7086e020264ea4084e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:04 +0000
Subject: [PATCH 065/114] fix: accesslog: %b and %B do not count the response
 headers as documented

---
 include/lighttpd/virtualrequest.h |  1 +
 src/main/connection.c             |  2 ++
 src/main/response.c               |  1 +
 src/modules/mod_accesslog.c       | 15 ++++++++++++---
 4 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/lighttpd/virtualrequest.h b/include/lighttpd/virtualrequest.h
index d9e21f4..cd7396b 100644
--- a/include/lighttpd/virtualrequest.h
+++ b/include/lighttpd/virtualrequest.h
@@ -56,6 +56,7 @@ struct liConInfo {
 
 	liStream *req;
 	liStream *resp;
+	goffset resp_head_length; /* bytes in resp->out before the response body */
 
 	/* bytes in our "raw-io-out-queue" that hasn't be sent yet. (whatever "sent" means - in ssl buffer, kernel, ...) */
 	goffset out_queue_length;
diff --git a/src/main/connection.c b/src/main/connection.c
index b250f72..919b48a 100644
--- a/src/main/connection.c
+++ b/src/main/connection.c
@@ -799,6 +799,7 @@ static void li_connection_reset2(liConnection *con) {
 	con->info.stats.bytes_out_5s = G_GUINT64_CONSTANT(0);
 	con->info.stats.bytes_out_5s_diff = G_GUINT64_CONSTANT(0);
 	con->info.stats.last_avg = 0;
+	con->info.resp_head_length = 0;
 
 	/* remove from timeout queue */
 	li_waitqueue_remove(&con->wrk->io_timeout_queue, &con->io_timeout_elem);
@@ -877,6 +878,7 @@ static void li_connection_reset_keep_alive(liConnection *con) {
 	con->info.stats.bytes_out_5s = G_GUINT64_CONSTANT(0);
 	con->info.stats.bytes_out_5s_diff = G_GUINT64_CONSTANT(0);
 	con->info.stats.last_avg = 0;
+	con->info.resp_head_length = 0;
 }
 
 void li_connection_free(liConnection *con) {
diff --git a/src/main/response.c b/src/main/response.c
index 6769859..d0ace33 100644
--- a/src/main/response.c
+++ b/src/main/response.c
@@ -149,6 +149,7 @@ void li_response_send_headers(liVRequest *vr, liChunkQueue *raw_out, liChunkQueu
 
 	li_g_string_append_len(head, CONST_STR_LEN("\r\n"));
 	li_chunkqueue_append_string(raw_out, head);
+	vr->coninfo->resp_head_length = raw_out->bytes_in;
 
 	if (NULL != tmp_cq) {
 		li_chunkqueue_steal_all(raw_out, tmp_cq);
diff --git a/src/modules/mod_accesslog.c b/src/modules/mod_accesslog.c
index b53ed2b..c94406d 100644
--- a/src/modules/mod_accesslog.c
+++ b/src/modules/mod_accesslog.c
@@ -207,6 +207,15 @@ static GArray *al_parse_format(liServer *srv, const gchar *formatstr) {
 	return arr;
 }
 
+/* bytes of the response sent after the headers */
+static gint64 al_response_body_bytes(liVRequest *vr) {
+	gint64 bytes;
+
+	if (NULL == vr->coninfo->resp) return 0;
+	bytes = vr->coninfo->resp->out->bytes_out - vr->coninfo->resp_head_length;
+	return (bytes > 0) ? bytes : 0;
+}
+
 static GString *al_format_log(liVRequest *vr, al_data *ald, GArray *format) {
 	GString *str = g_string_sized_new(255);
 	liResponse *resp = &vr->response;
@@ -231,11 +240,11 @@ static GString *al_format_log(liVRequest *vr, al_data *ald, GArray *format) {
 				li_g_string_append_len(str, GSTR_LEN(vr->coninfo->local_addr_str));
 				break;
 			case AL_FORMAT_BYTES_RESPONSE:
-				li_string_append_int(str, (NULL != vr->coninfo->resp) ? vr->coninfo->resp->out->bytes_out : 0);
+				li_string_append_int(str, al_response_body_bytes(vr));
 				break;
 			case AL_FORMAT_BYTES_RESPONSE_CLF:
-				if (NULL != vr->coninfo->resp && vr->coninfo->resp->out->bytes_out)
-					li_string_append_int(str, vr->coninfo->resp->out->bytes_out);
+				if (al_response_body_bytes(vr) > 0)
+					li_string_append_int(str, al_response_body_bytes(vr));
 				else
 					g_string_append_c(str, '-');
 				break;
-- 
2.43.0


From 3d7dbd25124e20d98951897c40a2eb9134fac7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:04 +0000
Subject: [PATCH 066/114] fix: accesslog: %v is the request host if server.name
 is not set

---
 src/modules/mod_accesslog.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/mod_accesslog.c b/src/modules/mod_accesslog.c
index c94406d..d97264d 100644
--- a/src/modules/mod_accesslog.c
+++ b/src/modules/mod_accesslog.c
@@ -326,7 +326,7 @@ static GString *al_format_log(liVRequest *vr, al_data *ald, GArray *format) {
 				li_g_string_append_len(str, GSTR_LEN(req->uri.path));
 				break;
 			case AL_FORMAT_SERVER_NAME:
-				if (CORE_OPTIONPTR(LI_CORE_OPTION_SERVER_NAME).string)
+				if (CORE_OPTIONPTR(LI_CORE_OPTION_SERVER_NAME).string && CORE_OPTIONPTR(LI_CORE_OPTION_SERVER_NAME).string->len)
 					li_g_string_append_len(str, GSTR_LEN(CORE_OPTIONPTR(LI_CORE_OPTION_SERVER_NAME).string));
 				else
 					li_g_string_append_len(str, GSTR_LEN(req->uri.host));
-- 
2.43.0


From 02880d3b56a5574fbf4f3a1643acae3b845e5393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:04 +0000
Subject: [PATCH 067/114] fix: accesslog: escape path, physical path and user
 like all other values of the client

---
 src/modules/mod_accesslog.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/modules/mod_accesslog.c b/src/modules/mod_accesslog.c
index d97264d..d164816 100644
--- a/src/modules/mod_accesslog.c
+++ b/src/modules/mod_accesslog.c
@@ -260,7 +260,7 @@ static GString *al_format_log(liVRequest *vr, al_data *ald, GArray *format) {
 				break;
 			case AL_FORMAT_FILENAME:
 				if (phys->path->len)
-					li_g_string_append_len(str, GSTR_LEN(phys->path));
+					al_append_escaped(str, phys->path);
 				else
 					g_string_append_c(str, '-');
 				break;
@@ -318,12 +318,12 @@ static GString *al_format_log(liVRequest *vr, al_data *ald, GArray *format) {
 			case AL_FORMAT_AUTHED_USER:
 				tmp_gstr2 = li_environment_get(&vr->env, CONST_STR_LEN("REMOTE_USER"));
 				if (tmp_gstr2)
-					li_g_string_append_len(str, GSTR_LEN(tmp_gstr2));
+					al_append_escaped(str, tmp_gstr2);
 				else
 					g_string_append_c(str, '-');
 				break;
 			case AL_FORMAT_PATH:
-				li_g_string_append_len(str, GSTR_LEN(req->uri.path));
+				al_append_escaped(str, req->uri.path);
 				break;
 			case AL_FORMAT_SERVER_NAME:
 				if (CORE_OPTIONPTR(LI_CORE_OPTION_SERVER_NAME).string && CORE_OPTIONPTR(LI_CORE_OPTION_SERVER_NAME).string->len)
-- 
2.43.0


From 23b505b51adacbc97f2962460770cd71310721e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:04 +0000
Subject: [PATCH 068/114] fix: log: do not drop lines with a single character

---
 src/angel/angel_log.c | 4 ++--
 src/main/log.c        | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/angel/angel_log.c b/src/angel/angel_log.c
index bbd136d..ef68fa4 100644
--- a/src/angel/angel_log.c
+++ b/src/angel/angel_log.c
@@ -71,7 +71,7 @@ void li_log_split_lines(liServer *srv, liLogLevel log_level, guint flags, gchar
 	while ('\0' != *txt) {
 		if ('\r' == *txt || '\n' == *txt) {
 			*txt = '\0';
-			if (txt - start > 1) { /* skip empty lines*/
+			if (txt - start > 0) { /* skip empty lines*/
 				li_log_write(srv, log_level, flags, "%s%s", prefix, start);
 			}
 			txt++;
@@ -81,7 +81,7 @@ void li_log_split_lines(liServer *srv, liLogLevel log_level, guint flags, gchar
 			txt++;
 		}
 	}
-	if (txt - start > 1) { /* skip empty lines*/
+	if (txt - start > 0) { /* skip empty lines*/
 		li_log_write(srv, log_level, flags, "%s%s", prefix, start);
 	}
 }
diff --git a/src/main/log.c b/src/main/log.c
index 0eb6b72..2e86f48 100644
--- a/src/main/log.c
+++ b/src/main/log.c
@@ -523,7 +523,7 @@ void li_log_split_lines(liServer *srv, liWorker *wrk, liLogContext *context, liL
 	while ('\0' != *txt) {
 		if ('\r' == *txt || '\n' == *txt) {
 			*txt = '\0';
-			if (txt - start > 1) { /* skip empty lines*/
+			if (txt - start > 0) { /* skip empty lines*/
 				li_log_write(srv, wrk, context, log_level, flags, "%s%s", prefix, start);
 			}
 			txt++;
@@ -533,7 +533,7 @@ void li_log_split_lines(liServer *srv, liWorker *wrk, liLogContext *context, liL
 			txt++;
 		}
 	}
-	if (txt - start > 1) { /* skip empty lines*/
+	if (txt - start > 0) { /* skip empty lines*/
 		li_log_write(srv, wrk, context, log_level, flags, "%s%s", prefix, start);
 	}
 }
-- 
2.43.0


From a370f84786bb73f39517ceaf9391e8912c4f8598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:34 +0000
Subject: [PATCH 069/114] fix: accesslog: %t is the time the request was
 received as documented

---
 src/modules/mod_accesslog.c | 34 ++++++++++++----------------------
 1 file changed, 12 insertions(+), 22 deletions(-)

diff --git a/src/modules/mod_accesslog.c b/src/modules/mod_accesslog.c
index d164816..d1cc953 100644
--- a/src/modules/mod_accesslog.c
+++ b/src/modules/mod_accesslog.c
@@ -21,11 +21,6 @@
 LI_API gboolean mod_accesslog_init(liModules *mods, liModule *mod);
 LI_API gboolean mod_accesslog_free(liModules *mods, liModule *mod);
 
-struct al_data {
-	guint ts_ndx;
-};
-typedef struct al_data al_data;
-
 enum {
 	AL_OPTION_ACCESSLOG = 0,
 	AL_OPTION_ACCESSLOG_FORMAT
@@ -207,6 +202,15 @@ static GArray *al_parse_format(liServer *srv, const gchar *formatstr) {
 	return arr;
 }
 
+static void al_append_time(GString *str, li_tstamp ts) {
+	time_t t = (time_t) ts;
+	struct tm tm;
+	gchar buf[64];
+
+	if (NULL == localtime_r(&t, &tm)) return;
+	li_g_string_append_len(str, buf, strftime(buf, sizeof(buf), "[%d/%b/%Y:%H:%M:%S %z]", &tm));
+}
+
 /* bytes of the response sent after the headers */
 static gint64 al_response_body_bytes(liVRequest *vr) {
 	gint64 bytes;
@@ -216,7 +220,7 @@ static gint64 al_response_body_bytes(liVRequest *vr) {
 	return (bytes > 0) ? bytes : 0;
 }
 
-static GString *al_format_log(liVRequest *vr, al_data *ald, GArray *format) {
+static GString *al_format_log(liVRequest *vr, GArray *format) {
 	GString *str = g_string_sized_new(255);
 	liResponse *resp = &vr->response;
 	liRequest *req = &vr->request;
@@ -309,8 +313,7 @@ static GString *al_format_log(liVRequest *vr, al_data *ald, GArray *format) {
 				break;
 			case AL_FORMAT_TIME:
 				/* todo: implement format string */
-				tmp_gstr2 = li_worker_current_timestamp(vr->wrk, LI_LOCALTIME, ald->ts_ndx);
-				li_g_string_append_len(str, GSTR_LEN(tmp_gstr2));
+				al_append_time(str, vr->ts_started);
 				break;
 			case AL_FORMAT_DURATION_SECONDS:
 				li_string_append_int(str, li_cur_ts(vr->wrk) - vr->ts_started);
@@ -380,7 +383,7 @@ static void al_handle_vrclose(liVRequest *vr, liPlugin *p) {
 		/* if status code is zero, it means the connection was closed while in keep alive state or similar and no logging is needed */
 		return;
 
-	msg = al_format_log(vr, p->data, format);
+	msg = al_format_log(vr, format);
 
 	li_log_write_direct(vr->wrk->srv, vr->wrk, log_path, msg);
 }
@@ -480,26 +483,13 @@ static const liPluginSetup setups[] = {
 };
 
 
-static void plugin_accesslog_free(liServer *srv, liPlugin *p) {
-	UNUSED(srv);
-
-	g_slice_free(al_data, p->data);
-}
-
 static void plugin_accesslog_init(liServer *srv, liPlugin *p, gpointer userdata) {
-	al_data *ald;
-
 	UNUSED(srv); UNUSED(userdata);
 
-	p->free = plugin_accesslog_free;
 	p->optionptrs = optionptrs;
 	p->actions = actions;
 	p->setups = setups;
 	p->handle_vrclose = al_handle_vrclose;
-
-	ald = g_slice_new0(al_data);
-	ald->ts_ndx = li_server_ts_format_add(srv, g_string_new_len(CONST_STR_LEN("[%d/%b/%Y:%H:%M:%S %z]")));
-	p->data = ald;
 }
 
 LI_API gboolean mod_accesslog_init(liModules *mods, liModule *mod) {
-- 
2.43.0


From 7df9b9d2e4818ddef5f517545dfaf5bbc2f98d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:29 +0000
Subject: [PATCH 070/114] fix: write the last log lines of a worker when it is
 stopped

---
 src/main/worker.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/main/worker.c b/src/main/worker.c
index e9811cd..95f10a1 100644
--- a/src/main/worker.c
+++ b/src/main/worker.c
@@ -144,10 +144,8 @@ GString *li_worker_current_timestamp(liWorker *wrk, liTimeFunc timefunc, guint f
 	return wts->str;
 }
 
-static void li_worker_prepare_cb(liEventBase *watcher, int events) {
-	liWorker *wrk = LI_CONTAINER_OF(li_event_prepare_from(watcher), liWorker, loop_prepare);
+static void worker_flush_logs(liWorker *wrk) {
 	liServer *srv = wrk->srv;
-	UNUSED(events);
 
 	/* are there pending log entries? */
 	if (g_queue_get_length(&wrk->logs.log_queue)) {
@@ -161,6 +159,13 @@ static void li_worker_prepare_cb(liEventBase *watcher, int events) {
 	}
 }
 
+static void li_worker_prepare_cb(liEventBase *watcher, int events) {
+	liWorker *wrk = LI_CONTAINER_OF(li_event_prepare_from(watcher), liWorker, loop_prepare);
+	UNUSED(events);
+
+	worker_flush_logs(wrk);
+}
+
 /* stop worker watcher */
 static void li_worker_stop_cb(liEventBase *watcher, int events) {
 	liWorker *wrk = LI_CONTAINER_OF(li_event_async_from(watcher), liWorker, worker_stop_watcher);
@@ -390,6 +395,7 @@ struct ev_loop* li_worker_free(liWorker *wrk) {
 	wrk->collect_queue = NULL;
 
 	li_event_clear(&wrk->loop_prepare);
+	worker_flush_logs(wrk);
 
 	g_string_free(wrk->tmp_str, TRUE);
 
-- 
2.43.0


From fa56c97482de668fec272c795afdedbe6cf3847c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:54 +0000
Subject: [PATCH 071/114] fix: throttle: don't refill a pool if the timestamp
 of a worker is slightly behind

Each worker uses its own cached timestamp. If another worker already rearmed
the pool with a newer timestamp the unsigned time difference wrapped around
and the pool got (up to) one second worth of additional traffic.
---
 src/main/throttle.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/main/throttle.c b/src/main/throttle.c
index fe50297..82db7a1 100644
--- a/src/main/throttle.c
+++ b/src/main/throttle.c
@@ -9,6 +9,8 @@
 #define THROTTLE_MAX_STEP (64*1024)
 /* even if the magazine is empty release "overload" bytes to get requests started */
 #define THROTTLE_OVERLOAD (8*1024)
+/* workers cache their current time: how far (in msec) a worker might be behind another one */
+#define THROTTLE_MAX_SKEW 5000
 
 /* debug */
 #if 0
@@ -98,16 +100,23 @@ static void S_throttle_pool_rearm_workers(liThrottlePool *pool, guint worker_cou
 	}
 }
 
+/* time since last rearm. 0 if another worker with a slightly newer timestamp already did the rearm;
+ * bigger steps backwards (clock got changed) wrap around and trigger a rearm
+ */
+static guint throttle_pool_time_diff(guint now, guint last) {
+	return (last - now <= THROTTLE_MAX_SKEW) ? 0 : now - last;
+}
+
 static void throttle_pool_rearm(liWorker *wrk, liThrottlePool *pool, guint now) {
 	liThrottlePoolWorkerState *wpool = &pool->workers[wrk->ndx];
 	guint last = g_atomic_int_get((gint*) &pool->last_rearm);
-	guint time_diff = now - last;
+	guint time_diff = throttle_pool_time_diff(now, last);
 
 	if (HEDLEY_UNLIKELY(time_diff >= LI_THROTTLE_GRANULARITY)) {
 		g_mutex_lock(pool->rearm_mutex);
 			/* check again */
 			last = g_atomic_int_get((gint*) &pool->last_rearm);
-			time_diff = now - last;
+			time_diff = throttle_pool_time_diff(now, last);
 			if (HEDLEY_LIKELY(time_diff >= LI_THROTTLE_GRANULARITY)) {
 				S_throttle_pool_rearm_workers(pool, wrk->srv->worker_count, time_diff);
 				g_atomic_int_set((gint*) &pool->last_rearm, now);
-- 
2.43.0


From 9e96f2ea1c761526e77575b6e9ab65958be90d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:54 +0000
Subject: [PATCH 072/114] fix: fetch: don't use released entry if a new one was
 found in the cache

If the entry found at first got removed from the cache in the meantime the
reference of the released entry was increased (use after free) instead of the
reference of the new entry, and the new entry might not be ready yet.
---
 src/common/fetch.c | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/common/fetch.c b/src/common/fetch.c
index 7af224f..7013897 100644
--- a/src/common/fetch.c
+++ b/src/common/fetch.c
@@ -521,6 +521,7 @@ liFetchEntry* li_fetch_get2(liFetchDatabase* db, GString *key, liFetchWakeupCB w
 		goto out;
 	}
 
+retry_lookup:
 	pentry = g_hash_table_lookup(db->cache, key);
 	if (NULL != pentry) {
 		li_fetch_entry_acquire(&pentry->public);
@@ -562,22 +563,16 @@ liFetchEntry* li_fetch_get2(liFetchDatabase* db, GString *key, liFetchWakeupCB w
 			break;
 		case LI_ENTRY_INVALID:
 			/* entry got removed from cache, can't add wakeup anymore */
-			/* if there is an entry in the cache it is fresh enough,
+			/* there might be a new entry in the cache (or a lookup in progress),
 			 * otherwise do a new lookup */
 			li_fetch_entry_release(&pentry->public);
-			result = g_hash_table_lookup(db->cache, key);
-			if (NULL != result) {
-				li_fetch_entry_acquire(&pentry_new->public);
-				goto out;
-			}
-			goto create_new_entry;
+			goto retry_lookup;
 		}
 
 		wakeup_add_job(&pentry_new->wait_queue, wakeup, wakeup_data);
 
 		*wait = (liFetchWait*) pentry_new;
 	} else {
-create_new_entry:
 		/* create new entry */
 		fetch_db_int_acquire(db);
 		pentry = g_slice_new0(liFetchEntryP);
-- 
2.43.0


From 99642be3fb4b573d8736f2b0c15b6597d5306cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:54 +0000
Subject: [PATCH 073/114] fix: tasklets: free tasklets finished while freeing
 the pool

---
 src/common/tasklet.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/common/tasklet.c b/src/common/tasklet.c
index 12ce83f..baccfd8 100644
--- a/src/common/tasklet.c
+++ b/src/common/tasklet.c
@@ -75,6 +75,8 @@ void li_tasklet_pool_free(liTaskletPool *pool) {
 
 	while (NULL != (t = g_async_queue_try_pop(pool->finished))) {
 		t->finished_cb(t->data);
+
+		g_slice_free(liTasklet, t);
 	}
 	g_async_queue_unref(pool->finished);
 	pool->finished = NULL;
-- 
2.43.0


From e75ed499c91a5bf8a151f7da012afe86879c2bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:42 +0000
Subject: [PATCH 074/114] fix: backends: check for failed wait with the pool
 locked when a request stops waiting

---
 src/main/backends.c | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/src/main/backends.c b/src/main/backends.c
index f47fe74..0b318f1 100644
--- a/src/main/backends.c
+++ b/src/main/backends.c
@@ -1022,15 +1022,6 @@ void li_backend_wait_stop(liVRequest *vr, liBackendPool *bpool, liBackendWait **
 
 	LI_FORCE_ASSERT(vr == bwait->vr);
 
-	if (bwait->failed) {
-		bwait->vr = NULL;
-		li_job_ref_release(bwait->vr_ref);
-		bwait->vr_ref = NULL;
-		bwait->failed = FALSE;
-		g_slice_free(liBackendWait, bwait);
-		return;
-	}
-
 	g_mutex_lock(pool->lock);
 
 	if (!bwait->failed) {
-- 
2.43.0


From e8ae2ba780e9f6ad57ee7d221d1582378909a608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:41 +0000
Subject: [PATCH 075/114] fix: stat cache: reading directories with the stat
 cache disabled crashed

---
 src/main/stat_cache.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/main/stat_cache.c b/src/main/stat_cache.c
index cb8b3bc..d5c0482 100644
--- a/src/main/stat_cache.c
+++ b/src/main/stat_cache.c
@@ -228,6 +228,18 @@ liHandlerResult li_stat_cache_get_dirlist(liVRequest *vr, GString *path, liStatC
 	guint i;
 
 	sc = vr->wrk->stat_cache;
+	if (NULL == sc) {
+		/* stat cache is disabled: read the directory now, only this vrequest uses the entry */
+		sce = stat_cache_entry_new(NULL, path);
+		sce->type = STAT_CACHE_ENTRY_DIR;
+		sce->cached = FALSE;
+		stat_cache_run(sce);
+		li_stat_cache_entry_acquire(vr, sce); /* assign sce to vr */
+		stat_cache_entry_release(sce); /* initial reference */
+		*result = sce;
+		return LI_HANDLER_GO_ON;
+	}
+
 	sce = g_hash_table_lookup(sc->dirlists, path);
 
 	if (sce) {
-- 
2.43.0


From 87a00e9415e6c142856b46d73378ccb9d791f81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:21 +0000
Subject: [PATCH 076/114] fix: sendfile: continue after falling back to write;
 check the size of the file, not of the socket

---
 src/main/network_sendfile.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/main/network_sendfile.c b/src/main/network_sendfile.c
index fa7b3b5..900fca1 100644
--- a/src/main/network_sendfile.c
+++ b/src/main/network_sendfile.c
@@ -187,8 +187,7 @@ static liNetworkStatus network_backend_sendfile(int fd, liChunkQueue *cq, goffse
 		case NSR_WAIT_FOR_EVENT:
 			return LI_NETWORK_STATUS_WAIT_FOR_EVENT;
 		case NSR_FALLBACK:
-			LI_NETWORK_FALLBACK(li_network_backend_write, write_max);
-			break;
+			return li_network_backend_write(fd, cq, write_max, err);
 		case NSR_CLOSE:
 			return LI_NETWORK_STATUS_CONNECTION_CLOSE;
 		case NSR_FATAL_ERROR:
@@ -197,12 +196,12 @@ static liNetworkStatus network_backend_sendfile(int fd, liChunkQueue *cq, goffse
 		if (0 == r) {
 			/* don't care about cached stat - file is open */
 			struct stat st;
-			if (-1 == fstat(fd, &st)) {
+			if (-1 == fstat(c->data.file.file->fd, &st)) {
 				g_set_error(err, LI_NETWORK_ERROR, 0, "network_backend_sendfile: Couldn't fstat file: %s", g_strerror(errno));
 				return LI_NETWORK_STATUS_FATAL_ERROR;
 			}
 
-			if (file_offset > st.st_size) {
+			if (file_offset >= st.st_size) {
 				/* file shrank, close the connection */
 				g_set_error(err, LI_NETWORK_ERROR, 0, "network_backend_sendfile: File shrank, aborting");
 				return LI_NETWORK_STATUS_FATAL_ERROR;
-- 
2.43.0


From 1dad0fa65f067cfe5c38ed5d2b33bdb808593ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:11 +0000
Subject: [PATCH 077/114] fix: backends: abort the request if the response
 source breaks before it is connected

---
 src/main/stream_http_response.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main/stream_http_response.c b/src/main/stream_http_response.c
index 90ece9a..9da8b34 100644
--- a/src/main/stream_http_response.c
+++ b/src/main/stream_http_response.c
@@ -256,9 +256,9 @@ static void stream_http_response_cb(liStream *stream, liStreamEvent event) {
 		if (!stream->out->is_closed) {
 			liVRequest *vr = shr->vr;
 			shr->vr = NULL;
-			if (NULL != vr && !shr->response_headers_finished && stream == vr->backend_source) {
-				/* nothing else would wake up the request */
-				VR_ERROR(vr, "%s", "Lost backend connection before response header was received");
+			if (NULL != vr && stream == vr->backend_source && (!shr->response_headers_finished || NULL == stream->dest)) {
+				/* nothing else would wake up the request, or it isn't connected yet */
+				VR_ERROR(vr, "%s", "Lost backend connection before response was started");
 				li_vrequest_error(vr);
 			}
 			/* "abort" */
-- 
2.43.0


From 583bb26897c631d2c4c09bd9ee3b72e9f201db78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:32 +0000
Subject: [PATCH 078/114] fix: SNI client hello parser looped forever when data
 follows the host name

---
 src/modules/ssl_client_hello_parser.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modules/ssl_client_hello_parser.h b/src/modules/ssl_client_hello_parser.h
index 910b03d..9706c06 100644
--- a/src/modules/ssl_client_hello_parser.h
+++ b/src/modules/ssl_client_hello_parser.h
@@ -388,6 +388,8 @@ INLINE liSSLClientHelloParserResult _li_ssl_client_hello_parse(liSSLClientHelloP
 								context->sni_hostname_remaining -= take;
 								p += take;
 							}
+							if (0 == context->sni_hostname_remaining) context->sni_state = 2; /* next entry */
+							continue;
 						}
 					} /* while (p < extension_pe) -- sni extension subloop */
 				} /* while (p < client_hello_pe) -- extensions subloop */
-- 
2.43.0


From 686b6e0c90d44bdac81c201c3b23271e8d807c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:11 +0000
Subject: [PATCH 079/114] fix: mod_gnutls: send close notify after the last
 response

---
 src/modules/gnutls_filter.c           |  6 ++++++
 src/modules/gnutls_filter.h           |  3 +++
 src/modules/mod_gnutls.c              | 22 ++++++++++++++++++++--
 src/modules/ssl_client_hello_parser.h |  2 ++
 4 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/modules/gnutls_filter.c b/src/modules/gnutls_filter.c
index ca3445c..278e4e8 100644
--- a/src/modules/gnutls_filter.c
+++ b/src/modules/gnutls_filter.c
@@ -673,6 +673,12 @@ liGnuTLSFilter* li_gnutls_filter_new(
 	return f;
 }
 
+void li_gnutls_filter_shutdown(liGnuTLSFilter *f) {
+	if (NULL == f->session || f->closing || !f->initial_handshaked_finished) return;
+	f->plain_drain.out->is_closed = TRUE;
+	do_gnutls_write(f);
+}
+
 void li_gnutls_filter_free(liGnuTLSFilter *f) {
 	LI_FORCE_ASSERT(NULL != f->callbacks);
 	f->callbacks = NULL;
diff --git a/src/modules/gnutls_filter.h b/src/modules/gnutls_filter.h
index 8d8c8c9..6f519c9 100644
--- a/src/modules/gnutls_filter.h
+++ b/src/modules/gnutls_filter.h
@@ -26,4 +26,7 @@ LI_API liGnuTLSFilter* li_gnutls_filter_new(
 /* doesn't call closed_cb; but you can call this from closed_cb */
 LI_API void li_gnutls_filter_free(liGnuTLSFilter *f);
 
+/* all data was sent: send close notify now (calls closed_cb) */
+LI_API void li_gnutls_filter_shutdown(liGnuTLSFilter *f);
+
 #endif
diff --git a/src/modules/mod_gnutls.c b/src/modules/mod_gnutls.c
index ce030da..2b86e01 100644
--- a/src/modules/mod_gnutls.c
+++ b/src/modules/mod_gnutls.c
@@ -344,6 +344,11 @@ static void tcp_io_cb(liIOStream *stream, liIOStreamEvent event) {
 		li_stream_simple_socket_close(stream, TRUE); /* kill it, ssl sent an close alert message */
 	}
 
+	/* connection already done and filter closed: close the socket after sending the remaining data (close notify) */
+	if (NULL == conctx->con && NULL != stream->stream_out.source && stream->stream_out.source->out->is_closed) {
+		stream->stream_out.out->is_closed = TRUE;
+	}
+
 	li_connection_simple_tcp(&conctx->con, stream, &conctx->simple_socket_data, event);
 
 	if (NULL != conctx->con && conctx->con->out_has_all_data
@@ -353,6 +358,10 @@ static void tcp_io_cb(liIOStream *stream, liIOStreamEvent event) {
 		li_connection_request_done(conctx->con);
 	}
 
+	if (LI_IOSTREAM_DESTROY != event && NULL == conctx->con && stream->out_closed) {
+		li_stream_simple_socket_close(stream, FALSE);
+	}
+
 	switch (event) {
 	case LI_IOSTREAM_DESTROY:
 		LI_FORCE_ASSERT(NULL == conctx->sock_stream);
@@ -416,6 +425,13 @@ static void close_cb(liGnuTLSFilter *f, gpointer data) {
 	}
 #endif
 
+	LI_FORCE_ASSERT(NULL != conctx->sock_stream);
+	{
+		/* try to send close notify / alert now */
+		liIOStream *stream = conctx->sock_stream;
+		if (stream->can_write && !stream->throttled_out) tcp_io_cb(stream, LI_IOSTREAM_WRITE);
+	}
+
 	if (NULL != conctx->client_hello_stream) {
 		li_ssl_client_hello_stream_ready(conctx->client_hello_stream);
 		li_stream_release(conctx->client_hello_stream);
@@ -435,7 +451,6 @@ static void close_cb(liGnuTLSFilter *f, gpointer data) {
 	}
 #endif
 
-	LI_FORCE_ASSERT(NULL != conctx->sock_stream);
 	li_iostream_safe_release(&conctx->sock_stream);
 }
 
@@ -470,11 +485,14 @@ static const liGnuTLSFilterCallbacks filter_callbacks = {
 
 static void gnutls_tcp_finished(liConnection *con, gboolean aborted) {
 	mod_connection_ctx *conctx = con->con_sock.data;
-	UNUSED(aborted);
 
 	con->info.is_ssl = FALSE;
 	con->con_sock.callbacks = NULL;
 
+	if (NULL != conctx && !aborted) {
+		li_gnutls_filter_shutdown(conctx->tls_filter);
+		conctx = con->con_sock.data;
+	}
 	if (NULL != conctx) {
 		LI_FORCE_ASSERT(con == conctx->con);
 		close_cb(conctx->tls_filter, conctx);
diff --git a/src/modules/ssl_client_hello_parser.h b/src/modules/ssl_client_hello_parser.h
index 9706c06..afc134a 100644
--- a/src/modules/ssl_client_hello_parser.h
+++ b/src/modules/ssl_client_hello_parser.h
@@ -74,6 +74,8 @@ INLINE void li_ssl_client_hello_stream_ready(liStream *stream) {
 	liSSLClientHelloParserStream *pstream = LI_CONTAINER_OF(stream, liSSLClientHelloParserStream, stream);
 	LI_FORCE_ASSERT(_li_ssl_client_hello_stream_cb == stream->cb);
 
+	if (pstream->parser.forward) return;
+
 	pstream->parser.finished = pstream->parser.forward = TRUE;
 	li_stream_again(stream);
 }
-- 
2.43.0


From 26681d5eeb048ac97d01861e641138e8255dbdaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:14 +0000
Subject: [PATCH 080/114] fix: mod_openssl: close the socket after close notify
 was sent

---
 src/modules/mod_openssl.c    | 16 +++++++++++++++-
 src/modules/openssl_filter.c |  6 ++++++
 src/modules/openssl_filter.h |  3 +++
 3 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/modules/mod_openssl.c b/src/modules/mod_openssl.c
index b3cec9f..ec83ab8 100644
--- a/src/modules/mod_openssl.c
+++ b/src/modules/mod_openssl.c
@@ -92,6 +92,11 @@ static void tcp_io_cb(liIOStream *stream, liIOStreamEvent event) {
 		li_stream_simple_socket_close(stream, TRUE); /* kill it, ssl sent an close alert message */
 	}
 
+	/* connection already done and filter closed: close the socket after sending the remaining data (close notify) */
+	if (NULL == conctx->con && NULL != stream->stream_out.source && stream->stream_out.source->out->is_closed) {
+		stream->stream_out.out->is_closed = TRUE;
+	}
+
 	li_connection_simple_tcp(&conctx->con, stream, &conctx->simple_socket_data, event);
 
 	if (NULL != conctx->con && conctx->con->out_has_all_data
@@ -101,6 +106,10 @@ static void tcp_io_cb(liIOStream *stream, liIOStreamEvent event) {
 		li_connection_request_done(conctx->con);
 	}
 
+	if (LI_IOSTREAM_DESTROY != event && NULL == conctx->con && stream->out_closed) {
+		li_stream_simple_socket_close(stream, FALSE);
+	}
+
 	switch (event) {
 	case LI_IOSTREAM_DESTROY:
 		LI_FORCE_ASSERT(NULL == conctx->sock_stream);
@@ -150,6 +159,8 @@ static void close_cb(liOpenSSLFilter *f, gpointer data) {
 	if (NULL != conctx->sock_stream) {
 		liIOStream *stream = conctx->sock_stream;
 		conctx->sock_stream = NULL;
+		/* try to send close notify / alert now */
+		if (stream->can_write && !stream->throttled_out) tcp_io_cb(stream, LI_IOSTREAM_WRITE);
 		li_iostream_release(stream);
 	}
 }
@@ -161,11 +172,14 @@ static const liOpenSSLFilterCallbacks filter_callbacks = {
 
 static void openssl_tcp_finished(liConnection *con, gboolean aborted) {
 	openssl_connection_ctx *conctx = con->con_sock.data;
-	UNUSED(aborted);
 
 	con->info.is_ssl = FALSE;
 	con->con_sock.callbacks = NULL;
 
+	if (NULL != conctx && !aborted) {
+		li_openssl_filter_shutdown(conctx->ssl_filter);
+		conctx = con->con_sock.data;
+	}
 	if (NULL != conctx) {
 		LI_FORCE_ASSERT(con == conctx->con);
 		close_cb(conctx->ssl_filter, conctx);
diff --git a/src/modules/openssl_filter.c b/src/modules/openssl_filter.c
index 24ec12d..bde7799 100644
--- a/src/modules/openssl_filter.c
+++ b/src/modules/openssl_filter.c
@@ -693,6 +693,12 @@ liOpenSSLFilter* li_openssl_filter_new(
 	return f;
 }
 
+void li_openssl_filter_shutdown(liOpenSSLFilter *f) {
+	if (NULL == f->ssl || f->closing || !f->initial_handshaked_finished) return;
+	f->plain_drain.out->is_closed = TRUE;
+	do_ssl_write(f);
+}
+
 void li_openssl_filter_free(liOpenSSLFilter *f) {
 	LI_FORCE_ASSERT(NULL != f->callbacks);
 	f->callbacks = NULL;
diff --git a/src/modules/openssl_filter.h b/src/modules/openssl_filter.h
index 3878b20..746af8f 100644
--- a/src/modules/openssl_filter.h
+++ b/src/modules/openssl_filter.h
@@ -24,6 +24,9 @@ LI_API liOpenSSLFilter* li_openssl_filter_new(
 /* doesn't call closed_cb; but you can call this from closed_cb */
 LI_API void li_openssl_filter_free(liOpenSSLFilter *f);
 
+/* all data was sent: send close notify now (calls closed_cb) */
+LI_API void li_openssl_filter_shutdown(liOpenSSLFilter *f);
+
 LI_API SSL* li_openssl_filter_ssl(liOpenSSLFilter *f);
 
 #endif
-- 
2.43.0


From daa17bf563f9c3419078f07eea22c85f419c2741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:26 +0000
Subject: [PATCH 081/114] fix: lingering close was never used, responses were
 reset if the client had sent more data

---
 src/main/stream_simple_socket.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/stream_simple_socket.c b/src/main/stream_simple_socket.c
index 269af98..db9f58d 100644
--- a/src/main/stream_simple_socket.c
+++ b/src/main/stream_simple_socket.c
@@ -7,6 +7,7 @@
 
 void li_stream_simple_socket_close(liIOStream *stream, gboolean aborted) {
 	int fd = li_event_io_fd(&stream->io_watcher);
+	gboolean got_eof = stream->in_closed;
 
 	li_event_detach(&stream->io_watcher);
 
@@ -18,7 +19,7 @@ void li_stream_simple_socket_close(liIOStream *stream, gboolean aborted) {
 		stream->stream_in.out->is_closed = TRUE;
 	}
 
-	if (aborted || stream->in_closed) {
+	if (aborted || got_eof) {
 		fd = li_iostream_reset(stream);
 		if (-1 != fd) {
 			shutdown(fd, SHUT_RDWR);
@@ -30,6 +31,7 @@ void li_stream_simple_socket_close(liIOStream *stream, gboolean aborted) {
 
 		shutdown(fd, SHUT_WR);
 		li_stream_disconnect(&stream->stream_out);
+		li_stream_disconnect_dest(&stream->stream_in);
 		li_worker_add_closing_socket(wrk, fd);
 	}
 	LI_FORCE_ASSERT(-1 == li_event_io_fd(&stream->io_watcher));
-- 
2.43.0


From 3bae7b1f6839be92d3cf689acc9ae56797de6ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:16 +0000
Subject: [PATCH 082/114] fix: TLS connections hung if the end of a response
 came without further data

---
 src/modules/gnutls_filter.c  | 3 +++
 src/modules/openssl_filter.c | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/modules/gnutls_filter.c b/src/modules/gnutls_filter.c
index 278e4e8..b447206 100644
--- a/src/modules/gnutls_filter.c
+++ b/src/modules/gnutls_filter.c
@@ -462,6 +462,9 @@ static void do_gnutls_write(liGnuTLSFilter *f) {
 		}
 	} else if (0 < cq->length && 0 != li_chunkqueue_limit_available(f->crypt_source.out)) {
 		li_stream_again_later(&f->plain_drain);
+	} else if (0 == cq->length) {
+		/* the end of a response might come without new data: the connection needs to check whether the request is done */
+		li_stream_notify_later(&f->crypt_source);
 	}
 
 out:
diff --git a/src/modules/openssl_filter.c b/src/modules/openssl_filter.c
index bde7799..313c059 100644
--- a/src/modules/openssl_filter.c
+++ b/src/modules/openssl_filter.c
@@ -482,6 +482,9 @@ static void do_ssl_write(liOpenSSLFilter *f) {
 		}
 	} else if (0 < cq->length && 0 != li_chunkqueue_limit_available(f->crypt_source.out)) {
 		li_stream_again_later(&f->plain_drain);
+	} else if (0 == cq->length) {
+		/* the end of a response might come without new data: the connection needs to check whether the request is done */
+		li_stream_notify_later(&f->crypt_source);
 	}
 
 out:
-- 
2.43.0


From a22a3a976830581bd97ab5261c85ab9bd25c1a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:22 +0000
Subject: [PATCH 083/114] fix: lua: restore the lua state if loading a script
 fails

A script that failed while it was loaded left the error message on the
stack where the backups of the environment were expected, which aborted
the server; a syntax error left the stack (and the lock) behind on every
request.
---
 src/main/config_lua.c | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/main/config_lua.c b/src/main/config_lua.c
index bf34252..927f6ce 100644
--- a/src/main/config_lua.c
+++ b/src/main/config_lua.c
@@ -166,7 +166,7 @@ gboolean li_config_lua_load(liLuaState *LL, liServer *srv, liWorker *wrk, const
 
 	if (0 != luaL_loadfile(L, filename)) {
 		_ERROR(srv, wrk, NULL, "Loading script '%s' failed: %s", filename, lua_tostring(L, -1));
-		return FALSE;
+		goto failed;
 	}
 
 	_DEBUG(srv, wrk, NULL, "Loaded config script '%s'", filename);
@@ -186,18 +186,7 @@ gboolean li_config_lua_load(liLuaState *LL, liServer *srv, liWorker *wrk, const
 	errfunc = li_lua_push_traceback(L, 2); /* +1, but before args */
 	if (lua_pcall(L, 2, 0, errfunc)) { /* -3 (func + args), 0 results (but 1 error) */
 		_ERROR(srv, wrk, NULL, "lua_pcall(): %s", lua_tostring(L, -1));
-
-		/* cleanup stack */
-		if (lua_stack_top > lua_gettop(L)) {
-			lua_pop(L, lua_gettop(L) - lua_stack_top);
-		}
-
-		li_lua_environment_restore(LL); /* -1 */
-		li_lua_environment_restore_globals(L); /* -1 */
-
-		li_lua_unlock(LL);
-
-		return FALSE;
+		goto failed;
 	}
 	lua_remove(L, errfunc);
 
@@ -215,4 +204,16 @@ gboolean li_config_lua_load(liLuaState *LL, liServer *srv, liWorker *wrk, const
 	li_lua_unlock(LL);
 
 	return TRUE;
+
+failed:
+	lua_settop(L, lua_stack_top); /* reset stack */
+
+	li_lua_environment_restore(LL); /* -1 */
+	li_lua_environment_restore_globals(L); /* -1 */
+
+	lua_gc(L, LUA_GCCOLLECT, 0);
+
+	li_lua_unlock(LL);
+
+	return FALSE;
 }
-- 
2.43.0


From 007fad8f564081b376e978649eceddba2b60dedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:22 +0000
Subject: [PATCH 084/114] fix: lua: give filters added by vr:add_filter_in/out
 an environment

The reference was left at 0, which is the head of the list of free
references in the registry, so running the filter used that number as
a table and crashed the server.
---
 src/main/filters_lua.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/filters_lua.c b/src/main/filters_lua.c
index e6a0272..5a9e4c3 100644
--- a/src/main/filters_lua.c
+++ b/src/main/filters_lua.c
@@ -361,6 +361,7 @@ liFilter* li_lua_vrequest_add_filter_in(lua_State *L, liVRequest *vr, int state_
 	state = g_slice_new0(filter_lua_state);
 	state->LL = LL;
 	state->object_ref = luaL_ref(L, LUA_REGISTRYINDEX);
+	state->env_ref = li_lua_environment_create(LL, vr);
 
 	return li_vrequest_add_filter_in(vr, filter_lua_handle, filter_lua_free, NULL, state);
 }
@@ -374,6 +375,7 @@ liFilter* li_lua_vrequest_add_filter_out(lua_State *L, liVRequest *vr, int state
 	state = g_slice_new0(filter_lua_state);
 	state->LL = LL;
 	state->object_ref = luaL_ref(L, LUA_REGISTRYINDEX);
+	state->env_ref = li_lua_environment_create(LL, vr);
 
 	return li_vrequest_add_filter_out(vr, filter_lua_handle, filter_lua_free, NULL, state);
 }
-- 
2.43.0


From 55d3bac59870cd3af7652d901d9ea32d86061b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:22 +0000
Subject: [PATCH 085/114] fix: lua: don't panic if a filter object can't be
 indexed

An error outside of a protected call terminates the server.
---
 src/main/core_lua.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/main/core_lua.c b/src/main/core_lua.c
index e49f48e..b2e5593 100644
--- a/src/main/core_lua.c
+++ b/src/main/core_lua.c
@@ -53,11 +53,24 @@ int li_lua_push_traceback(lua_State *L, int nargs) {
 	return base;
 }
 
+static int object_get_method(lua_State *L) {
+	lua_gettable(L, 1);
+	return 1;
+}
+
 gboolean li_lua_call_object(liServer *srv, liVRequest *vr, lua_State *L, const char* method, int nargs, int nresults, gboolean optional) {
 	int errfunc;
 	gboolean result;
 
-	lua_getfield(L, -nargs, method); /* +1 "function" */
+	/* the object might not support indexing; need protection against errors */
+	lua_pushcfunction(L, object_get_method); /* +1 */
+	lua_pushvalue(L, -nargs - 1); /* +1 "object" */
+	lua_pushstring(L, method); /* +1 */
+	if (lua_pcall(L, 2, 1, 0)) { /* -3, +1 "function" (or error) */
+		_VR_ERROR(srv, vr, "li_lua_call_object: lookup of method '%s' failed: %s", method, lua_tostring(L, -1));
+		lua_pop(L, 1 + nargs);
+		return FALSE;
+	}
 
 	if (!lua_isfunction(L, -1)) {
 		if (!optional) {
-- 
2.43.0


From 87fdfca8532b4358d3d113cd57dfdbd171222513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:22 +0000
Subject: [PATCH 086/114] fix: lua: check the object in methods of virtual
 requests and chunk queues

vr.handle_direct() (instead of vr:handle_direct()) and the like crashed
the server; vr.in and vr.out are also nil in some states.
---
 src/main/chunk_lua.c          |  6 ++++++
 src/main/virtualrequest_lua.c | 23 ++++++++++++++++-------
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/main/chunk_lua.c b/src/main/chunk_lua.c
index e9b6379..968b9ec 100644
--- a/src/main/chunk_lua.c
+++ b/src/main/chunk_lua.c
@@ -219,6 +219,8 @@ static int lua_chunkqueue_reset(lua_State *L) {
 	liChunkQueue *cq;
 
 	cq = li_lua_get_chunkqueue(L, 1);
+	if (cq == NULL) return 0;
+
 	li_chunkqueue_reset(cq);
 
 	return 0;
@@ -228,6 +230,8 @@ static int lua_chunkqueue_steal_all(lua_State *L) {
 	liChunkQueue *cq, *cq_from;
 
 	cq = li_lua_get_chunkqueue(L, 1);
+	if (cq == NULL) return 0;
+
 	cq_from = li_lua_get_chunkqueue(L, 2);
 	if (!cq_from) {
 		lua_pushliteral(L, "Expected source chunkqueue to steal from");
@@ -243,6 +247,8 @@ static int lua_chunkqueue_skip_all(lua_State *L) {
 	liChunkQueue *cq;
 
 	cq = li_lua_get_chunkqueue(L, 1);
+	if (cq == NULL) return 0;
+
 	li_chunkqueue_skip_all(cq);
 
 	return 0;
diff --git a/src/main/virtualrequest_lua.c b/src/main/virtualrequest_lua.c
index 8b860ea..d92943f 100644
--- a/src/main/virtualrequest_lua.c
+++ b/src/main/virtualrequest_lua.c
@@ -147,10 +147,19 @@ static int lua_vrequest_newindex(lua_State *L) {
 	return 0;
 }
 
+/* for methods: raise an error if they were not called on a virtual request */
+static liVRequest* lua_check_vrequest(lua_State *L, int ndx) {
+	liVRequest *vr = li_lua_get_vrequest(L, ndx);
+
+	if (NULL == vr) luaL_argerror(L, ndx, "virtual request expected");
+
+	return vr;
+}
+
 static int lua_vrequest_error(lua_State *L) {
 	liVRequest *vr;
 	GString *buf;
-	vr = li_lua_get_vrequest(L, 1);
+	vr = lua_check_vrequest(L, 1);
 
 	buf = li_lua_print_get_string(L, 2, lua_gettop(L));
 
@@ -164,7 +173,7 @@ static int lua_vrequest_error(lua_State *L) {
 static int lua_vrequest_warning(lua_State *L) {
 	liVRequest *vr;
 	GString *buf;
-	vr = li_lua_get_vrequest(L, 1);
+	vr = lua_check_vrequest(L, 1);
 
 	buf = li_lua_print_get_string(L, 2, lua_gettop(L));
 
@@ -178,7 +187,7 @@ static int lua_vrequest_warning(lua_State *L) {
 static int lua_vrequest_info(lua_State *L) {
 	liVRequest *vr;
 	GString *buf;
-	vr = li_lua_get_vrequest(L, 1);
+	vr = lua_check_vrequest(L, 1);
 
 	buf = li_lua_print_get_string(L, 2, lua_gettop(L));
 
@@ -192,7 +201,7 @@ static int lua_vrequest_info(lua_State *L) {
 static int lua_vrequest_debug(lua_State *L) {
 	liVRequest *vr;
 	GString *buf;
-	vr = li_lua_get_vrequest(L, 1);
+	vr = lua_check_vrequest(L, 1);
 
 	buf = li_lua_print_get_string(L, 2, lua_gettop(L));
 
@@ -260,7 +269,7 @@ static int lua_vrequest_stat(lua_State *L) {
 
 static int lua_vrequest_handle_direct(lua_State *L) {
 	liVRequest *vr;
-	vr = li_lua_get_vrequest(L, 1);
+	vr = lua_check_vrequest(L, 1);
 
 	lua_pushboolean(L, li_vrequest_handle_direct(vr));
 
@@ -296,7 +305,7 @@ static int lua_vrequest_add_filter_in(lua_State *L) {
 		lua_error(L);
 	}
 
-	vr = li_lua_get_vrequest(L, 1);
+	vr = lua_check_vrequest(L, 1);
 
 	return li_lua_push_filter(L, li_lua_vrequest_add_filter_in(L, vr, 2));
 }
@@ -309,7 +318,7 @@ static int lua_vrequest_add_filter_out(lua_State *L) {
 		lua_error(L);
 	}
 
-	vr = li_lua_get_vrequest(L, 1);
+	vr = lua_check_vrequest(L, 1);
 
 	return li_lua_push_filter(L, li_lua_vrequest_add_filter_out(L, vr, 2));
 }
-- 
2.43.0


From b6a29bcf5cf48374fd2492ff09bb89c5ebd2f590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:57 +0000
Subject: [PATCH 087/114] fix: lua: chunkqueue:add_file: use the length
 parameter, accept empty files

The length was taken from the start parameter, a start without a length
was always refused, errors leaked the file descriptor.
---
 src/main/chunk_lua.c | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/main/chunk_lua.c b/src/main/chunk_lua.c
index 968b9ec..ea69ec7 100644
--- a/src/main/chunk_lua.c
+++ b/src/main/chunk_lua.c
@@ -164,37 +164,53 @@ static int _lua_chunkqueue_add_file(lua_State *L, gboolean tempfile) {
 		return -1;
 	}
 
+	if (!S_ISREG(st.st_mode)) {
+		close(fd);
+
+		lua_pushliteral(L, "chunkqueue:add: not a regular file: ");
+		lua_pushvalue(L, 2);
+		lua_concat(L, 2);
+		lua_error(L);
+
+		return -1;
+	}
+
 	start = 0;
-	length = st.st_size;
 
 	if (lua_gettop(L) >= 3) {
 		if (!lua_isnumber(L, 3)) {
+			close(fd);
+
 			lua_pushliteral(L, "chunkqueue:add expects number (or nothing) as second parameter");
 			lua_error(L);
 
-			close(fd);
 			return -1;
 		}
 
 		start = lua_tonumber(L, 3);
 	}
+
+	length = st.st_size - start;
+
 	if (lua_gettop(L) >= 4) {
 		if (!lua_isnumber(L, 4)) {
+			close(fd);
+
 			lua_pushliteral(L, "chunkqueue:add expects number (or nothing) as third parameter");
 			lua_error(L);
 
-			close(fd);
 			return -1;
 		}
 
-		length = lua_tonumber(L, 3);
+		length = lua_tonumber(L, 4);
 	}
 
-	if (start < 0 || start >= st.st_size || length < 0 || start + length > st.st_size) {
+	if (start < 0 || start > st.st_size || length < 0 || length > st.st_size - start) {
+		close(fd);
+
 		lua_pushliteral(L, "chunkqueue:add: Invalid start/length values");
 		lua_error(L);
 
-		close(fd);
 		return -1;
 	}
 
-- 
2.43.0


From f371e3f365957146e51804e20a7587db75a47bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:36 +0000
Subject: [PATCH 088/114] fix: lua: conditions comparing numbers, errors in
 conditions

:gt, :ge, :lt and :le could never be used as the values were always
passed as strings. Using a condition variable with '.' instead of ':'
crashed, and an invalid ip address released a variable still in use.
---
 src/main/condition.c     |  1 +
 src/main/condition_lua.c | 24 ++++++++++++++++++++++--
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/main/condition.c b/src/main/condition.c
index 0ffbafb..f73cba7 100644
--- a/src/main/condition.c
+++ b/src/main/condition.c
@@ -333,6 +333,7 @@ static liCondition* cond_new_ip(liServer *srv, liCompOperator op, liConditionLVa
 	c = condition_new(op, lvalue);
 	if (!condition_parse_ip_net(&c->rvalue, str->str)) {
 		ERROR(srv, "Invalid ip address '%s'", str->str);
+		c->lvalue = NULL; /* the caller keeps the lvalue if this fails */
 		li_condition_release(srv, c);
 		return NULL;
 	}
diff --git a/src/main/condition_lua.c b/src/main/condition_lua.c
index 41a2255..63486b6 100644
--- a/src/main/condition_lua.c
+++ b/src/main/condition_lua.c
@@ -169,6 +169,7 @@ static int lua_cond_lvalue_bool(lua_State *L) {
 	liCompOperator cmpop;
 
 	lvalue = lua_get_condition_lvalue(L, 1);
+	if (NULL == lvalue) luaL_argerror(L, 1, "condition variable expected");
 	srv = (liServer*) lua_touserdata(L, lua_upvalueindex(1));
 	cmpop = (liCompOperator) lua_tointeger(L, lua_upvalueindex(2));
 
@@ -181,6 +182,20 @@ static int lua_cond_lvalue_bool(lua_State *L) {
 	return 0;
 }
 
+static gboolean cond_op_compares_numbers(liCompOperator cmpop) {
+	switch (cmpop) {
+	case LI_CONFIG_COND_EQ:
+	case LI_CONFIG_COND_NE:
+	case LI_CONFIG_COND_GT:
+	case LI_CONFIG_COND_GE:
+	case LI_CONFIG_COND_LT:
+	case LI_CONFIG_COND_LE:
+		return TRUE;
+	default:
+		return FALSE;
+	}
+}
+
 static int lua_cond_lvalue_cmp(lua_State *L) {
 	liServer *srv;
 	GString *sval;
@@ -189,11 +204,16 @@ static int lua_cond_lvalue_cmp(lua_State *L) {
 	liCompOperator cmpop;
 
 	lvalue = lua_get_condition_lvalue(L, 1);
+	if (NULL == lvalue) luaL_argerror(L, 1, "condition variable expected");
 	srv = (liServer*) lua_touserdata(L, lua_upvalueindex(1));
 	cmpop = (liCompOperator) lua_tointeger(L, lua_upvalueindex(2));
 
-	if (NULL == (sval = li_lua_togstring(L, 2))) return 0;
-	c = li_condition_new_string(srv, cmpop, lvalue, sval);
+	if (LUA_TNUMBER == lua_type(L, 2) && cond_op_compares_numbers(cmpop)) {
+		c = li_condition_new_int(srv, cmpop, lvalue, lua_tonumber(L, 2));
+	} else {
+		if (NULL == (sval = li_lua_togstring(L, 2))) return 0;
+		c = li_condition_new_string(srv, cmpop, lvalue, sval);
+	}
 	if (c) {
 		li_condition_lvalue_acquire(lvalue);
 		li_lua_push_condition(srv, L, c);
-- 
2.43.0


From 1955e02917f564db53e4f4a8e454ee3c9a4a0c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:30 +0000
Subject: [PATCH 089/114] fix: lua: pop the saved environment after restoring
 it

Every call of a lua action or filter left an entry on the stack: after
about 8000 requests the stack was full and the server aborted. After
loading a script the globals of the state were also replaced by the saved
metatable, so the log functions failed ("Couldn't convert parameter").
---
 src/main/core_lua.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/core_lua.c b/src/main/core_lua.c
index b2e5593..7d348d8 100644
--- a/src/main/core_lua.c
+++ b/src/main/core_lua.c
@@ -203,7 +203,7 @@ void li_lua_environment_restore(liLuaState *LL) /* -1 (expects previous metatabl
 	lua_rawgeti(L, LUA_REGISTRYINDEX, LL->li_env_ref); /* +1 */
 	lua_pushvalue(L, -2); /* +1 */
 	lua_setmetatable(L, -2); /* -1 restore prev mt for LI_ENV */
-	lua_pop(L, 1); /* -2 */
+	lua_pop(L, 2); /* -2 (LI_ENV and previous metatable) */
 }
 
 void li_lua_environment_use_globals(liLuaState *LL) /* +1 */ {
-- 
2.43.0


From 25981b606f7631e89d39140f8fb1b6f5fc463122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:30 +0000
Subject: [PATCH 090/114] fix: core.xsendfile: check the docroot

Comparing the path with the docroot always raised an error; also require
a full path component to match, and add the vr:error method it calls.
---
 contrib/core__xsendfile.lua   | 7 +++++--
 src/main/virtualrequest_lua.c | 1 +
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/contrib/core__xsendfile.lua b/contrib/core__xsendfile.lua
index fc4c62b..e06336d 100644
--- a/contrib/core__xsendfile.lua
+++ b/contrib/core__xsendfile.lua
@@ -2,6 +2,9 @@
 local filename, args = ...
 
 local docroot = args
+if docroot and docroot:sub(-1) ~= "/" then
+	docroot = docroot .. "/"
+end
 
 -- create new class XFilterDrop
 local XFilterDrop = { }
@@ -55,8 +58,8 @@ local function handle_x_sendfile(vr)
 	local xs = vr.resp.headers["X-Sendfile"]
 	if xs and xs ~= "" then
 		xs = lighty.path_simplify(xs)
-		if docroot and xs:sub(docroot.len()) ~= docroot then
-			vr:error("x-sendfile: File '".. xs .. "'not in required docroot '" .. docroot .. "'")
+		if docroot and xs:sub(1, docroot:len()) ~= docroot then
+			vr:error("x-sendfile: File '".. xs .. "' not in required docroot '" .. docroot .. "'")
 			return lighty.HANDLER_GO_ON
 		end
 
diff --git a/src/main/virtualrequest_lua.c b/src/main/virtualrequest_lua.c
index d92943f..97443c9 100644
--- a/src/main/virtualrequest_lua.c
+++ b/src/main/virtualrequest_lua.c
@@ -328,6 +328,7 @@ static const luaL_Reg vrequest_mt[] = {
 	{ "__newindex", lua_vrequest_newindex },
 
 	{ "print", lua_vrequest_error },
+	{ "error", lua_vrequest_error },
 	{ "warning", lua_vrequest_warning },
 	{ "info", lua_vrequest_info },
 	{ "debug", lua_vrequest_debug },
-- 
2.43.0


From 4f29d72dac5c5e9864154f0cd515ba6a657642b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:15 +0000
Subject: [PATCH 091/114] fix: secdownload: require a timestamp of exactly 8
 hex digits

The hash is built over path and timestamp without a separator: a link to
"/file5" was also valid for "/file" with the digit moved to the front of
the timestamp (leading zeros, white space or signs were accepted too).
---
 contrib/secdownload__secdownload.lua | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/contrib/secdownload__secdownload.lua b/contrib/secdownload__secdownload.lua
index 4918491..8fc634e 100644
--- a/contrib/secdownload__secdownload.lua
+++ b/contrib/secdownload__secdownload.lua
@@ -25,8 +25,9 @@ local function handle_secdownload(vr)
 		if slash == nil then return deny_access(vr, 403) end
 
 		local ts_string = path:sub(prefix_len + 34, slash - 1)
+		-- the hash covers path and timestamp without a separator: the timestamp needs a fixed length
+		if ts_string:len() ~= 8 or ts_string:find("[^0-9a-fA-F]") then return deny_access(vr, 403) end
 		local timestamp = tonumber(ts_string, 16)
-		if timestamp == nil then return deny_access(vr, 403) end
 
 		path = path:sub(slash)
 
-- 
2.43.0


From 7356b54e1febeca71afc1beed971ff3999ce1de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:15 +0000
Subject: [PATCH 092/114] fix: auth.require_user: escape all special characters
 in user names

'.', '?', '(' and others were still active in the regular expression, so
"a.b" let the user "axb" in; $ also matched before a trailing newline.
---
 contrib/core.lua | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/contrib/core.lua b/contrib/core.lua
index 2ff904b..6c586d1 100644
--- a/contrib/core.lua
+++ b/contrib/core.lua
@@ -80,9 +80,9 @@ local function auth_require_user(...)
 	else
 		local escapedusers = {}
 		for i, u in ipairs(users) do
-			escapedusers[i] = u:gsub("[]|+*[\\^$-]", "\\%0")
+			escapedusers[i] = u:gsub("[^%w_]", function(c) return string.format("\\x%02x", c:byte()) end)
 		end
-		local regex = "^(" .. table.concat(escapedusers, "|") .. ")$"
+		local regex = "^(" .. table.concat(escapedusers, "|") .. ")\\z"
 -- 		lighty.debug("auth_require_user REMOTE_USER regex: " .. regex)
 		return action.when(request.environment["REMOTE_USER"]:nomatch(regex), action.auth.deny())
 	end
-- 
2.43.0


From 7177d8ac97736af7748548108f1ed321cca4cd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:46 +0000
Subject: [PATCH 093/114] fix: lua: errors in the finished method of a filter
 crashed

Filters are freed after they were detached from the request, so there was
neither a request nor a server to log to.
---
 include/lighttpd/log.h | 12 ++++++------
 src/main/filters_lua.c |  8 ++++++--
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/lighttpd/log.h b/include/lighttpd/log.h
index ef878fa..e5691d3 100644
--- a/include/lighttpd/log.h
+++ b/include/lighttpd/log.h
@@ -54,12 +54,12 @@
 #define VR_GERROR(vr, error, fmt, ...) _GERROR(vr->wrk->srv, vr->wrk, &vr->log_context, error, fmt, __VA_ARGS__)
 
 /* vr may be NULL; if vr is NULL, srv must NOT be NULL */
-#define _VR_SEGFAULT(srv, vr, fmt, ...) _SEGFAULT(srv, NULL != vr ? vr->wrk : NULL, &vr->log_context, fmt, __VA_ARGS__)
-#define _VR_ERROR(srv, vr, fmt, ...)    _ERROR(srv, NULL != vr ? vr->wrk : NULL, &vr->log_context, fmt, __VA_ARGS__)
-#define _VR_WARNING(srv, vr, fmt, ...)  _WARNING(srv, NULL != vr ? vr->wrk : NULL, &vr->log_context, fmt, __VA_ARGS__)
-#define _VR_INFO(srv, vr, fmt, ...)     _INFO(srv, NULL != vr ? vr->wrk : NULL, &vr->log_context, fmt, __VA_ARGS__)
-#define _VR_DEBUG(srv, vr, fmt, ...)    _DEBUG(srv, NULL != vr ? vr->wrk : NULL, &vr->log_context, fmt, __VA_ARGS__)
-#define _VR_BACKEND(srv, vr, fmt, ...)  _BACKEND(srv, NULL != vr ? vr->wrk : NULL, &vr->log_context, fmt, __VA_ARGS__)
+#define _VR_SEGFAULT(srv, vr, fmt, ...) _SEGFAULT(srv, NULL != vr ? vr->wrk : NULL, NULL != vr ? &vr->log_context : NULL, fmt, __VA_ARGS__)
+#define _VR_ERROR(srv, vr, fmt, ...)    _ERROR(srv, NULL != vr ? vr->wrk : NULL, NULL != vr ? &vr->log_context : NULL, fmt, __VA_ARGS__)
+#define _VR_WARNING(srv, vr, fmt, ...)  _WARNING(srv, NULL != vr ? vr->wrk : NULL, NULL != vr ? &vr->log_context : NULL, fmt, __VA_ARGS__)
+#define _VR_INFO(srv, vr, fmt, ...)     _INFO(srv, NULL != vr ? vr->wrk : NULL, NULL != vr ? &vr->log_context : NULL, fmt, __VA_ARGS__)
+#define _VR_DEBUG(srv, vr, fmt, ...)    _DEBUG(srv, NULL != vr ? vr->wrk : NULL, NULL != vr ? &vr->log_context : NULL, fmt, __VA_ARGS__)
+#define _VR_BACKEND(srv, vr, fmt, ...)  _BACKEND(srv, NULL != vr ? vr->wrk : NULL, NULL != vr ? &vr->log_context : NULL, fmt, __VA_ARGS__)
 #define _VR_BACKEND_LINES(srv, vr, txt, fmt, ...) _BACKEND_LINES(srv, NULL != vr ? vr->wrk : NULL, &vr->log_context, txt, fmt, __VA_ARGS__)
 #define _VR_GERROR(srv, vr, error, fmt, ...) _GERROR(srv, NULL != vr ? vr->wrk : NULL, &vr->log_context, error, fmt, __VA_ARGS__)
 
diff --git a/src/main/filters_lua.c b/src/main/filters_lua.c
index 5a9e4c3..0800ec4 100644
--- a/src/main/filters_lua.c
+++ b/src/main/filters_lua.c
@@ -161,6 +161,7 @@ struct filter_lua_config {
 
 typedef struct filter_lua_state filter_lua_state;
 struct filter_lua_state {
+	liServer *srv; /* for logging; a filter can outlive the request */
 	liLuaState *LL;
 	int env_ref;
 	int object_ref;
@@ -200,6 +201,7 @@ static filter_lua_state* filter_lua_state_new(liVRequest *vr, filter_lua_config
 
 	if (LUA_NOREF != object_ref) {
 		filter_lua_state *state = g_slice_new0(filter_lua_state);
+		state->srv = srv;
 		state->LL = config->LL;
 		state->object_ref = object_ref;
 		state->env_ref = env_ref;
@@ -211,7 +213,7 @@ static filter_lua_state* filter_lua_state_new(liVRequest *vr, filter_lua_config
 }
 
 static void filter_lua_state_free(liVRequest *vr, filter_lua_state *state) {
-	liServer *srv = NULL != vr ? vr->wrk->srv : NULL;
+	liServer *srv = state->srv;
 	lua_State *L = state->LL->L;
 
 	li_lua_lock(state->LL);
@@ -237,8 +239,8 @@ static void filter_lua_free(liVRequest *vr, liFilter *f) {
 }
 
 static liHandlerResult filter_lua_handle(liVRequest *vr, liFilter *f) {
-	liServer *srv = NULL != vr ? vr->wrk->srv : NULL;
 	filter_lua_state *state = (filter_lua_state*) f->param;
+	liServer *srv = state->srv;
 	lua_State *L = state->LL->L;
 	liHandlerResult res;
 
@@ -359,6 +361,7 @@ liFilter* li_lua_vrequest_add_filter_in(lua_State *L, liVRequest *vr, int state_
 	lua_pushvalue(L, state_ndx);
 
 	state = g_slice_new0(filter_lua_state);
+	state->srv = vr->wrk->srv;
 	state->LL = LL;
 	state->object_ref = luaL_ref(L, LUA_REGISTRYINDEX);
 	state->env_ref = li_lua_environment_create(LL, vr);
@@ -373,6 +376,7 @@ liFilter* li_lua_vrequest_add_filter_out(lua_State *L, liVRequest *vr, int state
 	lua_pushvalue(L, state_ndx);
 
 	state = g_slice_new0(filter_lua_state);
+	state->srv = vr->wrk->srv;
 	state->LL = LL;
 	state->object_ref = luaL_ref(L, LUA_REGISTRYINDEX);
 	state->env_ref = li_lua_environment_create(LL, vr);
-- 
2.43.0


From 2ff7a19731e5a551bb170aa782b9bbbfd7978cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:07 +0000
Subject: [PATCH 094/114] fix: lua: name the condition variable physical.exists
 as documented

It was only available as physical.exist, which is not the name the main
config and the documentation use.
---
 src/main/condition.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/condition.c b/src/main/condition.c
index f73cba7..05cb8bf 100644
--- a/src/main/condition.c
+++ b/src/main/condition.c
@@ -479,7 +479,7 @@ const char* li_cond_lvalue_to_string(liCondLValue t) {
 	case LI_COMP_REQUEST_CONTENT_LENGTH: return "request.length";
 	case LI_COMP_REQUEST_IS_HANDLED: return "request.is_handled";
 	case LI_COMP_PHYSICAL_PATH: return "physical.path";
-	case LI_COMP_PHYSICAL_EXISTS: return "physical.exist";
+	case LI_COMP_PHYSICAL_EXISTS: return "physical.exists";
 	case LI_COMP_PHYSICAL_SIZE: return "physical.size";
 	case LI_COMP_PHYSICAL_ISDIR: return "physical.is_dir";
 	case LI_COMP_PHYSICAL_ISFILE: return "physical.is_file";
-- 
2.43.0


From 092612a2e41586fe34143d5e7d776e867aeb047e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:44 +0000
Subject: [PATCH 095/114] fix: lua.handler: reload a modified file even if the
 stat cache was out of date at the first check

---
 src/modules/mod_lua.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/modules/mod_lua.c b/src/modules/mod_lua.c
index abda286..705e6db 100644
--- a/src/modules/mod_lua.c
+++ b/src/modules/mod_lua.c
@@ -37,6 +37,7 @@ typedef struct lua_worker_config lua_worker_config;
 struct lua_worker_config {
 	liAction *act;
 	time_t ts_loaded;
+	struct stat st; /* of the loaded file */
 };
 
 typedef struct lua_config lua_config;
@@ -90,7 +91,6 @@ static liHandlerResult lua_handle(liVRequest *vr, gpointer param, gpointer *cont
 	if (!wc->act || timeout) {
 		int err;
 		struct stat st;
-		time_t last_load;
 
 		res = li_stat_cache_get(vr, conf->filename, &st, &err, NULL);
 		switch (res) {
@@ -103,11 +103,14 @@ static liHandlerResult lua_handle(liVRequest *vr, gpointer param, gpointer *cont
 			break;
 		}
 
-		last_load = wc->ts_loaded;
 		wc->ts_loaded = li_cur_ts(vr->wrk);
-		if (timeout && st.st_mtime <= last_load) {
+		/* the stat cache entry might be older than the last load, so compare with the file
+		 * that was loaded instead of the time it was loaded */
+		if (timeout && st.st_mtime == wc->st.st_mtime && st.st_size == wc->st.st_size
+				&& st.st_ino == wc->st.st_ino && st.st_dev == wc->st.st_dev) {
 			goto loaded;
 		}
+		wc->st = st;
 
 		li_action_release(vr->wrk->srv, wc->act);
 		wc->act = NULL;
-- 
2.43.0


From cc1e3b9ffc3a95775bcd350cd9a13fbe90ecfec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:42 +0000
Subject: [PATCH 096/114] fix: lua: find default entries in key-value lists

---
 src/main/value_lua.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/main/value_lua.c b/src/main/value_lua.c
index 60ec3a2..79f51a7 100644
--- a/src/main/value_lua.c
+++ b/src/main/value_lua.c
@@ -31,7 +31,8 @@ static int lua_kvlist_index(lua_State *L) {
 		lua_rawgeti(L, 1, i);
 
 		if (LUA_TTABLE != lua_type(L, -1)) continue;
-		if (2 != lua_rawlen(L, -1)) continue;
+		/* the length of a table with a nil entry is not well-defined */
+		if (!nil_key && 2 != lua_rawlen(L, -1)) continue;
 
 		lua_rawgeti(L, -1, 1);
 		switch (lua_type(L, -1)) {
@@ -43,7 +44,9 @@ static int lua_kvlist_index(lua_State *L) {
 		case LUA_TNIL:
 			if (!nil_key) break;
 			lua_rawgeti(L, -2, 2);
-			return 1;
+			if (!lua_isnil(L, -1)) return 1;
+			lua_pop(L, 1);
+			break;
 		default:
 			break;
 		}
-- 
2.43.0


From 3d9eabc313195a7213a8feefe4f2dd6ba775b0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:42 +0000
Subject: [PATCH 097/114] fix: lua: reserve stack space for arguments and
 nested values

---
 src/main/value_lua.c  |  7 ++++++-
 src/modules/mod_lua.c | 18 ++++++++++++++++++
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/main/value_lua.c b/src/main/value_lua.c
index 79f51a7..8cc507b 100644
--- a/src/main/value_lua.c
+++ b/src/main/value_lua.c
@@ -82,6 +82,11 @@ static liValue* li_value_from_lua_table(liServer *srv, lua_State *L, int ndx) {
 
 	val = li_value_new_list();
 
+	if (!lua_checkstack(L, LUA_MINSTACK)) {
+		ERROR(srv, "%s", "lua table nested too deep; skipping entries");
+		return val;
+	}
+
 	ndx = li_lua_fixindex(L, ndx);
 	lua_pushnil(L);
 	while (lua_next(L, ndx) != 0) {
@@ -215,7 +220,7 @@ GString* li_lua_togstring(lua_State *L, int ndx) {
 }
 
 int li_lua_push_value(lua_State *L, liValue *value) {
-	if (NULL == value) {
+	if (NULL == value || !lua_checkstack(L, LUA_MINSTACK)) {
 		lua_pushnil(L);
 		return 1;
 	}
diff --git a/src/modules/mod_lua.c b/src/modules/mod_lua.c
index 705e6db..88e9716 100644
--- a/src/modules/mod_lua.c
+++ b/src/modules/mod_lua.c
@@ -245,11 +245,13 @@ struct luaPlugin {
 	GString *filename;
 };
 
+/* returns -1 if there are too many arguments (nothing was pushed in this case) */
 static int push_args(lua_State *L, liValue *val) {
 	switch (li_value_type(val)) {
 	case LI_VALUE_NONE:
 		return 0;
 	case LI_VALUE_LIST:
+		if (li_value_list_len(val) > 4000 || !lua_checkstack(L, li_value_list_len(val) + LUA_MINSTACK)) return -1;
 		LI_VALUE_FOREACH(entry, val)
 			li_lua_push_value(L, entry);
 		LI_VALUE_END_FOREACH()
@@ -277,6 +279,14 @@ static gboolean lua_plugin_handle_setup(liServer *srv, liPlugin *p, liValue *val
 
 	lua_rawgeti(L, LUA_REGISTRYINDEX, lua_ref); /* +1: setup function */
 	nargs = push_args(L, val); /* +nargs: variable number of args */
+	if (nargs < 0) {
+		ERROR(srv, "%s", "too many arguments for lua plugin setup");
+		lua_pop(L, 1); /* -1 */
+		li_lua_environment_restore(&srv->LL); /* -1 */
+		li_lua_environment_restore_globals(L); /* -1 */
+		li_lua_unlock(&srv->LL);
+		return FALSE;
+	}
 
 	errfunc = li_lua_push_traceback(L, nargs); /* +1, but before nargs */
 	if (lua_pcall(L, nargs, 1, errfunc)) { /* -1-nargs, +1*/
@@ -320,6 +330,14 @@ static liAction* lua_plugin_handle_action(liServer *srv, liWorker *wrk, liPlugin
 
 	lua_rawgeti(L, LUA_REGISTRYINDEX, lua_ref); /* +1 */
 	nargs = push_args(L, val); /* +nargs: variable number of args */
+	if (nargs < 0) {
+		ERROR(srv, "%s", "too many arguments for lua plugin action");
+		lua_pop(L, 1); /* -1 */
+		li_lua_environment_restore(&srv->LL); /* -1 */
+		li_lua_environment_restore_globals(L); /* -1 */
+		li_lua_unlock(&srv->LL);
+		return NULL;
+	}
 
 	errfunc = li_lua_push_traceback(L, nargs); /* +1, but before nargs */
 	if (lua_pcall(L, nargs, 1, errfunc)) { /* -1-nargs, +1 */
-- 
2.43.0


From 2e643c8ed686c1c952c93285f382e7146ac01b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:52 +0000
Subject: [PATCH 098/114] fix: lua: chunkqueue:steal_all() of a queue from
 itself corrupted it

---
 src/main/chunk_lua.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/chunk_lua.c b/src/main/chunk_lua.c
index ea69ec7..fa738ca 100644
--- a/src/main/chunk_lua.c
+++ b/src/main/chunk_lua.c
@@ -254,7 +254,7 @@ static int lua_chunkqueue_steal_all(lua_State *L) {
 		return lua_error(L);
 	}
 
-	li_chunkqueue_steal_all(cq, cq_from);
+	if (cq != cq_from) li_chunkqueue_steal_all(cq, cq_from);
 
 	return 0;
 }
-- 
2.43.0


From 4e49909cf1a9729d434d4cdf273e21c55122142c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:00 +0000
Subject: [PATCH 099/114] fix: memcached: wait for the end of a data block
 before looking for END

If the reply to a "get" arrived up to (and not beyond) the last bytes of the
value or its terminating \r\n, the rest of the terminator was taken for the
END line: the lookup failed with a protocol error and the connection with all
other requests was dropped. Empty values were affected whenever they did not
arrive at once.
---
 src/common/memcached.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/common/memcached.c b/src/common/memcached.c
index 80894cc..2b0a76c 100644
--- a/src/common/memcached.c
+++ b/src/common/memcached.c
@@ -58,6 +58,7 @@ struct liMemcachedCon {
 	/* GET */
 	gsize get_data_size;
 	gboolean get_have_header;
+	gboolean get_have_data;
 };
 
 struct int_request {
@@ -599,6 +600,7 @@ static void handle_read(liMemcachedCon *con) {
 		case REQ_GET:
 			con->get_data_size = 0;
 			con->get_have_header = FALSE;
+			con->get_have_data = FALSE;
 			break;
 		case REQ_SET:
 			break;
@@ -676,9 +678,11 @@ req_get_header_error:
 
 req_get_header_done: ;
 		}
-		if (NULL == con->data || con->data->used < con->get_data_size) {
-			/* wait for data */
+		if (!con->get_have_data) {
+			/* wait for data (including the terminating \r\n) */
 			if (!try_read_data(con, con->get_data_size)) return;
+
+			con->get_have_data = TRUE;
 		}
 		/* wait for END\r\n */
 		if (!try_read_line(con)) return;
-- 
2.43.0


From 048ccb0b744922bca84e0634f36347b98f59f444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:00 +0000
Subject: [PATCH 100/114] fix: memcached: reject invalid sizes in replies

A negative size resulted in reading and writing in front of the data buffer,
a huge size in an aborting allocation.
---
 src/common/memcached.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/common/memcached.c b/src/common/memcached.c
index 2b0a76c..8187443 100644
--- a/src/common/memcached.c
+++ b/src/common/memcached.c
@@ -27,6 +27,9 @@ GQuark li_memcached_error_quark(void) {
 
 #define BUFFER_CHUNK_SIZE 4*1024
 
+/* memcached doesn't support items larger than 1GB ("-I" option) */
+#define MAX_DATA_SIZE (1024*1024*1024)
+
 typedef struct int_request int_request;
 typedef enum {
 	REQ_GET, REQ_SET
@@ -611,6 +614,7 @@ static void handle_read(liMemcachedCon *con) {
 	case REQ_GET:
 		if (!con->get_have_header) {
 			char *pos, *next;
+			gint64 data_size;
 
 			/* wait for header line */
 			if (!try_read_line(con)) return;
@@ -652,8 +656,10 @@ static void handle_read(liMemcachedCon *con) {
 
 			/* <bytes> */
 			pos = next + 1;
-			con->get_data_size = g_ascii_strtoll(pos, &next, 10);
+			data_size = g_ascii_strtoll(pos, &next, 10);
 			if (pos == next) goto req_get_header_error;
+			if (data_size < 0 || data_size > MAX_DATA_SIZE) goto req_get_header_error;
+			con->get_data_size = data_size;
 
 			/* [<cas unique>] */
 			if (' ' == *next) {
-- 
2.43.0


From f8ca09a2d6c308fd96f6e60a594e3e1dc297dade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:00 +0000
Subject: [PATCH 101/114] fix: memcached: don't abort a connect in progress on
 new requests

A request while the (non-blocking) connect is in progress checked the result
of the connect, and closed the socket as it isn't connected yet; this always
happened for the request which created the connection, and with requests
coming in steadily the connection was never established.
---
 src/common/memcached.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/common/memcached.c b/src/common/memcached.c
index 8187443..b46a13f 100644
--- a/src/common/memcached.c
+++ b/src/common/memcached.c
@@ -867,7 +867,8 @@ liMemcachedRequest* li_memcached_get(liMemcachedCon *con, GString *key, liMemcac
 		return NULL;
 	}
 
-	if (-1 == con->fd) memcached_connect(con);
+	/* if a connect is in progress wait for the io event */
+	if (-1 == con->fd && -1 == li_event_io_fd(&con->con_watcher)) memcached_connect(con);
 	if (-1 == con->fd) {
 		if (NULL == con->err) {
 			g_set_error(err, LI_MEMCACHED_ERROR, LI_MEMCACHED_DISABLED, "Not connected");
@@ -900,7 +901,8 @@ liMemcachedRequest* li_memcached_set(liMemcachedCon *con, GString *key, guint32
 		return NULL;
 	}
 
-	if (-1 == con->fd) memcached_connect(con);
+	/* if a connect is in progress wait for the io event */
+	if (-1 == con->fd && -1 == li_event_io_fd(&con->con_watcher)) memcached_connect(con);
 	if (-1 == con->fd) {
 		if (NULL == con->err) {
 			g_set_error(err, LI_MEMCACHED_ERROR, LI_MEMCACHED_DISABLED, "Not connected");
-- 
2.43.0


From 26b8dfcbffc71f8721c94f24e32b24ec85c3da7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:00 +0000
Subject: [PATCH 102/114] fix: memcached.store: evaluate the key when the
 action runs

The key was built when the response was complete; regex captures (%1, ...)
aren't available anymore then and were always empty: responses of different
requests were stored under the same key, which wasn't the one used by
memcached.lookup with the same pattern.
---
 src/modules/mod_memcached.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/modules/mod_memcached.c b/src/modules/mod_memcached.c
index 969b74e..bdd876b 100644
--- a/src/modules/mod_memcached.c
+++ b/src/modules/mod_memcached.c
@@ -53,6 +53,7 @@ typedef struct {
 
 typedef struct {
 	memcached_ctx *ctx;
+	GString *key;
 	liBuffer *buf;
 } memcache_filter;
 
@@ -429,6 +430,8 @@ static void memcache_store_filter_free(liVRequest *vr, liFilter *f) {
 	f->param = NULL;
 
 	mc_ctx_release(NULL, mf->ctx);
+	g_string_free(mf->key, TRUE);
+	mf->key = NULL;
 	li_buffer_release(mf->buf);
 	mf->buf = NULL;
 
@@ -505,13 +508,12 @@ static liHandlerResult memcache_store_filter(liVRequest *vr, liFilter *f) {
 		f->out->is_closed = TRUE;
 
 		con = mc_ctx_prepare(ctx, vr->wrk);
-		mc_ctx_build_key(vr->wrk->tmp_str, ctx, vr);
 
 		if (NULL != vr && CORE_OPTION(LI_CORE_OPTION_DEBUG_REQUEST_HANDLING).boolean) {
-			VR_DEBUG(vr, "memcached.store: storing response for key '%s'", vr->wrk->tmp_str->str);
+			VR_DEBUG(vr, "memcached.store: storing response for key '%s'", mf->key->str);
 		}
 
-		req = li_memcached_set(con, vr->wrk->tmp_str, ctx->flags, ctx->ttl, mf->buf, NULL, NULL, &err);
+		req = li_memcached_set(con, mf->key, ctx->flags, ctx->ttl, mf->buf, NULL, NULL, &err);
 		memcache_store_filter_free(vr, f);
 
 		if (NULL == req) {
@@ -551,6 +553,9 @@ static liHandlerResult mc_handle_store(liVRequest *vr, gpointer param, gpointer
 	mf = g_slice_new0(memcache_filter);
 	mf->ctx = ctx;
 	mc_ctx_acquire(ctx);
+	/* regex captures are only available now, not when the response is complete */
+	mf->key = g_string_sized_new(0);
+	mc_ctx_build_key(mf->key, ctx, vr);
 	mf->buf = li_buffer_new(ctx->maxsize);
 
 	li_vrequest_add_filter_out(vr, memcache_store_filter, memcache_store_filter_free, NULL, mf);
-- 
2.43.0


From 82e639899096550e6bd5b3e7915dceabbd6151e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:00 +0000
Subject: [PATCH 103/114] fix: memcached.store: don't store the (empty) body of
 HEAD responses

Backends don't send a body for HEAD requests; the empty body was served to
GET requests afterwards.
---
 src/modules/mod_memcached.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/modules/mod_memcached.c b/src/modules/mod_memcached.c
index bdd876b..de0e57c 100644
--- a/src/modules/mod_memcached.c
+++ b/src/modules/mod_memcached.c
@@ -550,6 +550,9 @@ static liHandlerResult mc_handle_store(liVRequest *vr, gpointer param, gpointer
 
 	if (vr->response.http_status != 200) return LI_HANDLER_GO_ON;
 
+	/* responses to HEAD requests often have no body */
+	if (LI_HTTP_METHOD_HEAD == vr->request.http_method) return LI_HANDLER_GO_ON;
+
 	mf = g_slice_new0(memcache_filter);
 	mf->ctx = ctx;
 	mc_ctx_acquire(ctx);
-- 
2.43.0


From 0b4d1bc4c06db68de7060b6d9470b560f5eddfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:00 +0000
Subject: [PATCH 104/114] fix: memcached: lua: con:set() called the value
 instead of the callback

---
 src/modules/mod_memcached.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/mod_memcached.c b/src/modules/mod_memcached.c
index de0e57c..8a95d50 100644
--- a/src/modules/mod_memcached.c
+++ b/src/modules/mod_memcached.c
@@ -840,7 +840,7 @@ static int lua_mc_set(lua_State *L) {
 
 	if (NULL == vr) {
 		/* lua callback function */
-		lua_pushvalue(L, 3); /* +1 */
+		lua_pushvalue(L, 4); /* +1 */
 		mreq->result_ref = luaL_ref(L, LUA_REGISTRYINDEX); /* -1 */
 	} else {
 		/* push result into table, wake vr if done */
-- 
2.43.0


From 6426b061ca3678de6fa9c42d5d81a811e2003cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:00 +0000
Subject: [PATCH 105/114] fix: memcached: lua: con:setq() ignored its ttl
 parameter

---
 src/modules/mod_memcached.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/mod_memcached.c b/src/modules/mod_memcached.c
index 8a95d50..43be9a7 100644
--- a/src/modules/mod_memcached.c
+++ b/src/modules/mod_memcached.c
@@ -880,8 +880,8 @@ static int lua_mc_setq(lua_State *L) {
 	str = lua_tolstring(L, 3, &len);
 	value = li_const_gstring(str, len);
 
-	if (lua_gettop(L) == 5) {
-		ttl = lua_tonumber(L, 5);
+	if (lua_gettop(L) == 4) {
+		ttl = lua_tonumber(L, 4);
 	} else {
 		ttl = 300;
 	}
-- 
2.43.0


From 350d4acc090093c6106d6f265c81c810e6267e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:00 +0000
Subject: [PATCH 106/114] fix: memcached: correct the documented response codes
 of the lua API

---
 doc/mod_memcached.xml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doc/mod_memcached.xml b/doc/mod_memcached.xml
index 321b837..fcf5028 100644
--- a/doc/mod_memcached.xml
+++ b/doc/mod_memcached.xml
@@ -96,7 +96,7 @@
 
 			The response object has:
 
-			* `code`: 1 – Ok, 2 – Not stored, 3 – Exists, 4 – Not found, 5 – Error
+			* `code`: 0 – Ok, 1 – Not stored, 2 – Exists, 3 – Not found, 4 – Error
 			* `error`: error message
 			* `key`: the lookup key
 			* `flags`
-- 
2.43.0


From 31623209fb8361b60024d4a3e1cfa531e80002b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:02 +0000
Subject: [PATCH 107/114] fix: memcached: lua: crash when collecting a request
 with a callback

---
 src/modules/mod_memcached.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/mod_memcached.c b/src/modules/mod_memcached.c
index 43be9a7..e5be323 100644
--- a/src/modules/mod_memcached.c
+++ b/src/modules/mod_memcached.c
@@ -1062,7 +1062,7 @@ static int lua_memcached_req_gc(lua_State *L) {
 	if (!preq || !*preq) return 0;
 
 	req = *preq;
-	li_job_ref_release(req->vr_ref);
+	if (NULL != req->vr_ref) li_job_ref_release(req->vr_ref);
 
 	if (req->req) {
 		req->req->callback = NULL;
-- 
2.43.0


From 8971adfbb8bf8e922cd2ccd97b2f222ef0d8ec0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:53 +0000
Subject: [PATCH 108/114] fix: angel: SIGHUP after the instance failed left the
 new instance in warmup forever

---
 src/angel/angel_server.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/angel/angel_server.c b/src/angel/angel_server.c
index cd903cd..3139c4e 100644
--- a/src/angel/angel_server.c
+++ b/src/angel/angel_server.c
@@ -318,8 +318,14 @@ void li_instance_state_reached(liInstance *i, liInstanceState s) {
 		break;
 	case LI_INSTANCE_WARMUP:
 		if (i->replace) {
-			/* stop old instance */
-			li_instance_set_state(i->replace, LI_INSTANCE_FINISHED);
+			if (LI_INSTANCE_FINISHED == i->replace->s_cur) {
+				/* old instance is already gone, nothing to wait for */
+				li_instance_set_state(i, LI_INSTANCE_RUNNING);
+				li_instance_unset_replace(i->replace, i);
+			} else {
+				/* stop old instance */
+				li_instance_set_state(i->replace, LI_INSTANCE_FINISHED);
+			}
 		}
 		break;
 	case LI_INSTANCE_RUNNING:
-- 
2.43.0


From 73480da7da042efe63c8500d767990f6b45918a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:53 +0000
Subject: [PATCH 109/114] fix: angel: crash and leaked descriptors after
 spawning an instance failed

---
 src/angel/angel_server.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/angel/angel_server.c b/src/angel/angel_server.c
index 3139c4e..8705190 100644
--- a/src/angel/angel_server.c
+++ b/src/angel/angel_server.c
@@ -172,7 +172,7 @@ static void instance_spawn(liInstance *i) {
 	int confd[2];
 	if (-1 == socketpair(AF_UNIX, SOCK_STREAM, 0, confd)) {
 		ERROR(i->srv, "socketpair error, cannot spawn instance: %s", g_strerror(errno));
-		return;
+		goto failed;
 	}
 	li_fd_init(confd[0]);
 	li_fd_no_block(confd[1]);
@@ -181,7 +181,12 @@ static void instance_spawn(liInstance *i) {
 	i->proc = li_proc_new(i->srv, i->ic->cmd, i->ic->env, i->ic->uid, i->ic->gid,
 		i->ic->username != NULL ? i->ic->username->str : NULL, i->ic->rlim_core, i->ic->rlim_nofile, instance_spawn_setup, confd);
 
-	if (!i->proc) return;
+	if (!i->proc) {
+		close(confd[1]);
+		li_angel_connection_free(i->acon);
+		i->acon = NULL;
+		goto failed;
+	}
 
 	i->pid = i->proc->child_pid;
 	close(confd[1]);
@@ -190,6 +195,12 @@ static void instance_spawn(liInstance *i) {
 	i->s_cur = LI_INSTANCE_DOWN;
 	li_instance_acquire(i);
 	INFO(i->srv, "instance[%i] spawned: %s", i->pid, i->ic->cmd[0]);
+	return;
+
+failed:
+	ERROR(i->srv, "%s", "spawning failed, not restarting");
+	i->s_dest = LI_INSTANCE_FINISHED;
+	li_instance_state_reached(i, LI_INSTANCE_FINISHED);
 }
 
 liInstance* li_server_new_instance(liServer *srv, liInstanceConf *ic) {
-- 
2.43.0


From 44bdf9abb78d9f3ab20976b2316cf7eb2e9ad5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:53 +0000
Subject: [PATCH 110/114] fix: angel: stopping during a graceful restart didn't
 stop the new instance

---
 include/lighttpd/angel_server.h |  2 ++
 src/angel/angel_plugin_core.c   |  7 ++++---
 src/angel/angel_server.c        | 14 ++++++++++++++
 3 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/include/lighttpd/angel_server.h b/include/lighttpd/angel_server.h
index cf2f9ad..491509e 100644
--- a/include/lighttpd/angel_server.h
+++ b/include/lighttpd/angel_server.h
@@ -73,6 +73,8 @@ LI_API void li_server_stop(liServer *srv);
 
 LI_API liInstance* li_server_new_instance(liServer *srv, liInstanceConf *ic);
 LI_API gboolean li_instance_replace(liInstance *oldi, liInstance *newi);
+/** final stop, including an instance which is about to replace this one */
+LI_API void li_instance_stop(liInstance *i);
 LI_API void li_instance_set_state(liInstance *i, liInstanceState s);
 LI_API void li_instance_state_reached(liInstance *i, liInstanceState s);
 
diff --git a/src/angel/angel_plugin_core.c b/src/angel/angel_plugin_core.c
index 5ca7254..6622b19 100644
--- a/src/angel/angel_plugin_core.c
+++ b/src/angel/angel_plugin_core.c
@@ -965,12 +965,13 @@ static void core_free(liServer *srv, liPlugin *p) {
 
 static void core_stop(liServer *srv, liPlugin *p) {
 	plugin_config *config = (plugin_config *)p->data;
+	liInstance *inst = config->inst;
 	UNUSED(srv);
 
-	if (config->inst) {
-		li_instance_set_state(config->inst, LI_INSTANCE_FINISHED);
-		li_instance_release(config->inst);
+	if (inst) {
 		config->inst = NULL;
+		li_instance_stop(inst);
+		li_instance_release(inst);
 	}
 }
 
diff --git a/src/angel/angel_server.c b/src/angel/angel_server.c
index 8705190..0bb98f8 100644
--- a/src/angel/angel_server.c
+++ b/src/angel/angel_server.c
@@ -239,6 +239,20 @@ static void li_instance_unset_replace(liInstance *oldi, liInstance *newi) {
 	li_instance_release(newi);
 }
 
+void li_instance_stop(liInstance *i) {
+	liInstance *newi = i->replace_by;
+
+	if (newi) {
+		/* cancel the replacement: both instances have to go */
+		li_instance_acquire(newi);
+		li_instance_unset_replace(i, newi);
+		li_instance_set_state(newi, LI_INSTANCE_FINISHED);
+		li_instance_release(newi);
+	}
+
+	li_instance_set_state(i, LI_INSTANCE_FINISHED);
+}
+
 void li_instance_set_state(liInstance *i, liInstanceState s) {
 	if (i->s_dest == s) return;
 	switch (s) {
-- 
2.43.0


From 79726facb6e63ec91126f71ca789bcf47c0a630f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:53 +0000
Subject: [PATCH 111/114] fix: angel: crash sending to an instance which closed
 its connection

---
 src/common/angel_connection.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/common/angel_connection.c b/src/common/angel_connection.c
index 691a7b4..3cac37d 100644
--- a/src/common/angel_connection.c
+++ b/src/common/angel_connection.c
@@ -592,7 +592,7 @@ gboolean li_angel_send_simple_call(
 
 	if (err && *err) goto error;
 
-	if (-1 == acon->fd) {
+	if (NULL == acon || -1 == acon->fd) {
 		g_set_error(err, LI_ANGEL_CONNECTION_ERROR, LI_ANGEL_CONNECTION_CLOSED, "connection already closed");
 		goto error;
 	}
@@ -632,7 +632,7 @@ gboolean li_angel_send_call(
 
 	if (err && *err) goto error;
 
-	if (-1 == acon->fd) {
+	if (NULL == acon || -1 == acon->fd) {
 		g_set_error(err, LI_ANGEL_CONNECTION_ERROR, LI_ANGEL_CONNECTION_CLOSED, "connection already closed");
 		goto error;
 	}
@@ -697,7 +697,7 @@ gboolean li_angel_send_result(
 
 	if (err && *err) goto error;
 
-	if (-1 == acon->fd) {
+	if (NULL == acon || -1 == acon->fd) {
 		g_set_error(err, LI_ANGEL_CONNECTION_ERROR, LI_ANGEL_CONNECTION_CLOSED, "connection already closed");
 		goto error;
 	}
-- 
2.43.0


From 5c6eba9e1a399226ce8ba19e0b3aefa65d0737ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:47 +0000
Subject: [PATCH 112/114] fix: angel: don't restart an instance which already
 failed when its replacement fails too

if spawning it failed again the replacement was released twice
---
 src/angel/angel_server.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/angel/angel_server.c b/src/angel/angel_server.c
index 0bb98f8..188e537 100644
--- a/src/angel/angel_server.c
+++ b/src/angel/angel_server.c
@@ -362,7 +362,9 @@ void li_instance_state_reached(liInstance *i, liInstanceState s) {
 	case LI_INSTANCE_FINISHED:
 		if (i->replace) {
 			ERROR(i->srv, "%s", "Replacing instance failed, continue old instance");
-			li_instance_set_state(i->replace, LI_INSTANCE_RUNNING);
+			if (LI_INSTANCE_FINISHED != i->replace->s_cur) {
+				li_instance_set_state(i->replace, LI_INSTANCE_RUNNING);
+			}
 
 			li_instance_unset_replace(i->replace, i);
 		} else if (i->s_dest == LI_INSTANCE_FINISHED) {
-- 
2.43.0


From df32fc1974be358ffbfbec91b7c5537f9345358f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:29 +0000
Subject: [PATCH 113/114] fix: angel connection: reject calls with a negative
 id

the angel aborted when it sent the result
---
 src/common/angel_connection.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/angel_connection.c b/src/common/angel_connection.c
index 3cac37d..bd828d6 100644
--- a/src/common/angel_connection.c
+++ b/src/common/angel_connection.c
@@ -170,9 +170,9 @@ static gboolean angel_dispatch(liAngelConnection *acon, GError **err) {
 			id, acon->parse.data);
 		break;
 	case ANGEL_CALL_SEND_CALL:
-		if (-1 == id) {
+		if (id < 0) {
 			g_set_error(err, LI_ANGEL_CONNECTION_ERROR, LI_ANGEL_CONNECTION_INVALID_DATA,
-				"Invalid id: -1, should be >= 0 for call");
+				"Invalid id: %i, should be >= 0 for call", (gint) id);
 			close_fd_array(acon->parse.fds);
 			return FALSE;
 		}
-- 
2.43.0


From 725318174cd18fb578000464332489bedb319a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:29 +0000
Subject: [PATCH 114/114] fix: angel connection: reject invalid lengths in
 message headers

---
 src/common/angel_connection.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/common/angel_connection.c b/src/common/angel_connection.c
index bd828d6..8580f90 100644
--- a/src/common/angel_connection.c
+++ b/src/common/angel_connection.c
@@ -5,6 +5,9 @@
 
 #define ANGEL_MAGIC ((gint32) 0x8a930a9f)
 
+/* error messages can be a little bit longer than the (limited) data they quote */
+#define ANGEL_RECV_MAX_STR_LEN (2*ANGEL_CALL_MAX_STR_LEN)
+
 static void close_fd_array(GArray *fds);
 
 typedef enum {
@@ -230,6 +233,10 @@ static gboolean angel_dispatch(liAngelConnection *acon, GError **err) {
 	return TRUE;
 }
 
+static gboolean valid_len(gint32 len) {
+	return len >= 0 && len <= ANGEL_RECV_MAX_STR_LEN;
+}
+
 static gboolean angel_connection_read(liAngelConnection *acon, GError **err) {
 	for ( ;; ) {
 		if (!acon->parse.have_header) {
@@ -252,6 +259,13 @@ static gboolean angel_connection_read(liAngelConnection *acon, GError **err) {
 				return FALSE;
 			}
 
+			if (!valid_len(acon->parse.mod_len) || !valid_len(acon->parse.action_len)
+			    || !valid_len(acon->parse.error_len) || !valid_len(acon->parse.data_len)) {
+				g_set_error(err, LI_ANGEL_CONNECTION_ERROR, LI_ANGEL_CONNECTION_INVALID_DATA,
+					"Invalid length in header");
+				return FALSE;
+			}
+
 			acon->parse.body_size = acon->parse.mod_len + acon->parse.action_len + acon->parse.error_len + acon->parse.data_len;
 			acon->parse.have_header = TRUE;
 		}
-- 
2.43.0

