From 5dc0e337db1c0fc44605ab2abf5d42cfc9448b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:25 +0000
Subject: [PATCH 01/49] fix: don't let the TLS read and write callbacks feed
 each other endlessly

If a client stops reading while the server has output pending, the read
watcher waits for input and the write watcher waits for output.  Invoking
either callback then kept the two calling each other within a single event
loop iteration, which starved all other connections and timers.
---
 src/common/tls.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/common/tls.c b/src/common/tls.c
index 9b89bce..653b425 100644
--- a/src/common/tls.c
+++ b/src/common/tls.c
@@ -882,7 +882,13 @@ reset_watcher_state(EV_P_ ev_io *w)
 {
 	tls_state *tls = w->data;
 
-	if (ev_is_active(w)) {
+	/*
+	 * A watcher which is waiting for its own I/O direction is up to date.
+	 * Feeding it nonetheless would make read_cb() and write_cb() invoke
+	 * each other endlessly if neither of them can make any progress.
+	 */
+	if (ev_is_active(w)
+	    && (w->events & (w == &tls->read_watcher ? EV_WRITE : EV_READ))) {
 		debug("Resetting %s watcher state for %s",
 		    w == &tls->read_watcher ? "input" : "output", tls->peer);
 		ev_feed_event(EV_A_ w, w->events);
-- 
2.43.0


From c4d4ab32b1d25f47c25f72d8f3c62e510f83f4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:20 +0000
Subject: [PATCH 02/49] fix: refuse commands with embedded NUL bytes

The authorization check treats the command as a string and therefore ends at
the first NUL byte, whereas all submitted bytes are written to the command
file.  So, a client was able to smuggle arbitrary commands past the check.
---
 src/server/server.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/server/server.c b/src/server/server.c
index 0fcd193..5058259 100644
--- a/src/server/server.c
+++ b/src/server/server.c
@@ -233,7 +233,9 @@ handle_push(tls_state * restrict tls, char * restrict data)
 
 	info("%s C: %.*s", tls->peer, width, data);
 
-	if (is_authorized(tls->id, data)) {
+	/* The command is checked (and logged) as a NUL-terminated string. */
+	if (memchr(data, '\0', connection->input_length) == NULL
+	    && is_authorized(tls->id, data)) {
 		notice("Queuing data from %s: %.*s", tls->peer, width, data);
 		fifo_write(connection->ctx->fifo, data,
 		    connection->input_length, free);
-- 
2.43.0


From cff2ba942789dd73a7d549363266e5c82a30ca94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:20 +0000
Subject: [PATCH 03/49] fix: anchor configured patterns which contain
 alternatives

A pattern such as `foo|bar' was expanded to `^foo|bar\n?$', so it authorized
any command starting with `foo' or ending with `bar'.
---
 src/server/conf.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/server/conf.c b/src/server/conf.c
index 6bed98f..9e4c6f8 100644
--- a/src/server/conf.c
+++ b/src/server/conf.c
@@ -241,7 +241,7 @@ host_to_command(const char *host_pattern)
 {
 	char *command_pattern;
 
-	xasprintf(&command_pattern, "PROCESS_HOST_CHECK_RESULT;%s;.+",
+	xasprintf(&command_pattern, "PROCESS_HOST_CHECK_RESULT;(%s);.+",
 	    host_pattern);
 
 	return command_pattern;
@@ -262,7 +262,7 @@ service_to_command(const char *service_pattern)
 	service_part = pattern;
 
 	xasprintf(&command_pattern,
-	    "PROCESS_SERVICE_CHECK_RESULT;%s;%s;.+;.+",
+	    "PROCESS_SERVICE_CHECK_RESULT;(%s);(%s);.+;.+",
 	    host_part, service_part);
 
 	free(pattern);
@@ -302,7 +302,7 @@ parse_command_pattern_cb(cfg_t * restrict cfg, cfg_opt_t * restrict opt,
 	char errbuf[128];
 	int success;
 
-	xasprintf(&pattern, "^%s\n?$", value);
+	xasprintf(&pattern, "^(%s)\n?$", value);
 	*re = xmalloc(sizeof(regex_t));
 	if ((success = regcomp(*re, pattern, REG_EXTENDED | REG_NOSUB)) != 0) {
 		(void)regerror(success, *re, errbuf, sizeof(errbuf));
-- 
2.43.0


From 99ecd3004e085607a69f01922af09ce67b5dae20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:20 +0000
Subject: [PATCH 04/49] fix: wait for the next request after handling NOOP

---
 src/server/server.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/server/server.c b/src/server/server.c
index 5058259..3c419af 100644
--- a/src/server/server.c
+++ b/src/server/server.c
@@ -194,9 +194,10 @@ handle_connection(tls_state * restrict tls, char * restrict line)
 
 	info("%s C: %s", tls->peer, line);
 
-	if (strncasecmp("NOOP", line, 4) == 0)
+	if (strncasecmp("NOOP", line, 4) == 0) {
 		send_response(tls, "OKAY");
-	else if (strncasecmp("PUSH", line, 4) == 0) {
+		tls_read_line(tls, handle_connection);
+	} else if (strncasecmp("PUSH", line, 4) == 0) {
 		if (!parse_line(line, args, 2)) {
 			warning("Cannot parse PUSH request from %s", tls->peer);
 			send_response(tls, "FAIL Cannot parse PUSH request");
-- 
2.43.0


From 3a71b63e535a3011155ee05afed6eea0d8c15413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:20 +0000
Subject: [PATCH 05/49] fix: don't lose data received together with the
 preceding line

The data following a request line might have been read into the input buffer
along with that line, e.g. if the client sent both in a single TLS record.
---
 src/common/tls.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/common/tls.c b/src/common/tls.c
index 653b425..c2d5721 100644
--- a/src/common/tls.c
+++ b/src/common/tls.c
@@ -834,17 +834,26 @@ read_bytes(tls_state *tls)
 	char *bytes = NULL;
 	int n, n_todo;
 
-	if (tls->input == NULL)
+	if (tls->input == NULL) {
 		tls->input = xmalloc(tls->input_size + 1); /* 1 for '\0'. */
+		/* We might have received some of the data with the last line. */
+		tls->input_offset = buffer_read(tls->input_buffer, tls->input,
+		    tls->input_size);
+	}
 	do {
 		n_todo = (int)(tls->input_size - tls->input_offset);
 
-		if ((n = SSL_read(tls->ssl, tls->input + tls->input_offset,
+		/* Don't call SSL_read() if we already got everything. */
+		if (n_todo == 0)
+			n = 0;
+		else if ((n = SSL_read(tls->ssl, tls->input + tls->input_offset,
 		    n_todo)) <= 0) {
 			debug("Received 0 of %d bytes from %s", n_todo,
 			    tls->peer);
 			check_tls_error(EV_DEFAULT_UC_ &tls->read_watcher, n);
-		} else if (n < n_todo) {
+			break;
+		}
+		if (n < n_todo) {
 			debug("Received %d of %d bytes from %s", n, n_todo,
 			    tls->peer);
 			tls->input_offset += (size_t)n;
-- 
2.43.0


From 841f944913d03ebddd2ad9ff17d61b1dfa554607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:30 +0000
Subject: [PATCH 06/49] fix: close the temporary file if an asynchronous write
 request fails

---
 src/server/fifo.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/server/fifo.c b/src/server/fifo.c
index df044ec..de8f1aa 100644
--- a/src/server/fifo.c
+++ b/src/server/fifo.c
@@ -402,14 +402,16 @@ async_cb(EV_P_ ev_async *w, int revents __attribute__((__unused__)))
 	fifo->free_aio_buf((void *)fifo->async_cb.aio_buf);
 	fifo->async_cb.aio_buf = NULL;
 
-	if ((result = aio_error(&fifo->async_cb)) != 0)
+	if ((result = aio_error(&fifo->async_cb)) != 0) {
 		error("Cannot write to %s: %s", fifo->dump_file,
 		    strerror(result));
-	else if ((n = aio_return(&fifo->async_cb))
-	    != (ssize_t)fifo->async_cb.aio_nbytes) /* Presumably an error. */
+		(void)close_dump_file(fifo);
+	} else if ((n = aio_return(&fifo->async_cb))
+	    != (ssize_t)fifo->async_cb.aio_nbytes) { /* Presumably an error. */
 		error("Wrote %zd instead of %zu bytes to %s", n,
 		    fifo->async_cb.aio_nbytes, fifo->dump_file);
-	else {
+		(void)close_dump_file(fifo);
+	} else {
 		char *command = make_process_file_command(fifo);
 
 		debug("Wrote %zd bytes to %s", n, fifo->dump_file);
-- 
2.43.0


From 2cdc12dfb3d9a451b0dec3b25123d1b78c7f2b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:30 +0000
Subject: [PATCH 07/49] fix: complete the pending asynchronous write request on
 shutdown

---
 src/server/fifo.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/server/fifo.c b/src/server/fifo.c
index de8f1aa..831ea0d 100644
--- a/src/server/fifo.c
+++ b/src/server/fifo.c
@@ -98,6 +98,7 @@ static void write_cb(EV_P_ ev_io *, int);
 static void async_dump_data(fifo_state *);
 static void async_signal_handler(int, siginfo_t *, void *);
 static void async_cb(EV_P_ ev_async *, int);
+static void async_wait(fifo_state *);
 #else
 static void idle_cb(EV_P_ ev_idle *, int);
 static void timeout_cb(EV_P_ ev_timer *, int);
@@ -201,8 +202,12 @@ fifo_stop(fifo_state *fifo)
 	debug("Stopping command file writer");
 
 #if HAVE_POSIX_AIO
-	if (ev_is_active(&fifo->async_watcher))
-		ev_async_stop(EV_DEFAULT_UC_ &fifo->async_watcher);
+	/* The pending request (if any) references our state and output. */
+	(void)signal(SIG_AIO, SIG_IGN);
+	while (ev_is_active(&fifo->async_watcher)) {
+		async_wait(fifo);
+		ev_invoke(EV_DEFAULT_UC_ &fifo->async_watcher, EV_CUSTOM);
+	}
 #else
 	if (ev_is_active(&fifo->idle_watcher))
 		ev_idle_stop(EV_DEFAULT_UC_ &fifo->idle_watcher);
@@ -423,6 +428,15 @@ async_cb(EV_P_ ev_async *w, int revents __attribute__((__unused__)))
 		dispatch_data(fifo);
 }
 
+static void
+async_wait(fifo_state *fifo)
+{
+	const struct aiocb *list[1] = { &fifo->async_cb };
+
+	while (aio_error(&fifo->async_cb) == EINPROGRESS)
+		(void)aio_suspend(list, 1, NULL);
+}
+
 #else
 
 static void
-- 
2.43.0


From b361b4463cdee79a67c1ff18b7da722c43feb668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:28 +0000
Subject: [PATCH 08/49] fix: don't leak the client ID if the TLS handshake
 fails

---
 src/common/tls.c  | 6 +++++-
 src/server/auth.c | 2 ++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/common/tls.c b/src/common/tls.c
index c2d5721..194b714 100644
--- a/src/common/tls.c
+++ b/src/common/tls.c
@@ -534,8 +534,11 @@ tls_free(tls_state *tls)
 		free(tls->id);
 	if (tls->peer != NULL)
 		free(tls->peer);
-	if (tls->ssl != NULL)
+	if (tls->ssl != NULL) {
+		/* The ID is set if the TLS handshake wasn't completed. */
+		free(SSL_get_app_data(tls->ssl));
 		SSL_free(tls->ssl);
+	}
 
 	free(tls);
 }
@@ -638,6 +641,7 @@ accept_ssl_cb(EV_P_ ev_io *w, int revents __attribute__((__unused__)))
 			error("Cannot retrieve client identity");
 			tls_free(tls);
 		} else {
+			(void)SSL_set_app_data(tls->ssl, NULL); /* Now ours. */
 			xasprintf(&tls->peer, "%s@%s", tls->id, tls->addr);
 			debug("TLS handshake with %s successful", tls->peer);
 			ev_io_stop(EV_A_ w);
diff --git a/src/server/auth.c b/src/server/auth.c
index f76124c..35bbafc 100644
--- a/src/server/auth.c
+++ b/src/server/auth.c
@@ -31,6 +31,7 @@
 
 #include <sys/types.h>
 #include <regex.h>
+#include <stdlib.h>
 #include <string.h>
 
 #include <confuse.h>
@@ -68,6 +69,7 @@ check_psk(SSL *ssl, const char *identity, unsigned char *password,
 	 * With (at least) OpenSSL 1.1.1b, SSL_get_psk_identity(3) returns NULL
 	 * when TLSv1.3 is used.  As a workaround, we store the ID ourselves:
 	 */
+	free(SSL_get_app_data(ssl)); /* We might be called more than once. */
 	if (SSL_set_app_data(ssl, xstrdup(identity)) != 1) {
 		error("Cannot store client-supplied ID (`%s')", identity);
 		return 0;
-- 
2.43.0


From 7cbbe75e4fb86cc24e8cac8a0dd04aac4939a59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:28 +0000
Subject: [PATCH 09/49] fix: don't clean up twice if restarting fails

---
 src/server/nsca-ng.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/server/nsca-ng.c b/src/server/nsca-ng.c
index b14a1cf..4448718 100644
--- a/src/server/nsca-ng.c
+++ b/src/server/nsca-ng.c
@@ -372,10 +372,10 @@ drop_privileges(const char *user, const char *new_root)
 static void
 remove_pidfile(void)
 {
-	if (pid_file != NULL && pidfile_remove(pfh) == -1) {
+	if (pid_file != NULL && pidfile_remove(pfh) == -1)
 		error("Cannot remove %s: %m", pid_file);
-		pid_file = NULL; /* Don't retry removing the PID file. */
-	}
+
+	pid_file = NULL; /* Don't (re)try removing the PID file. */
 }
 
 static void
@@ -394,6 +394,7 @@ forget_config(void)
 			}
 		}
 		cfg_free(cfg);
+		cfg = NULL;
 	}
 }
 
-- 
2.43.0


From ffc43db20dd43edeedc5a3b6951e6c24d4b1e439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:28 +0000
Subject: [PATCH 10/49] fix: require the timestamp at the start of the command

---
 src/server/auth.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server/auth.c b/src/server/auth.c
index 35bbafc..2a2a192 100644
--- a/src/server/auth.c
+++ b/src/server/auth.c
@@ -106,7 +106,7 @@ is_authorized(const char * restrict identity, const char * restrict command)
 		return false;
 	}
 	/* Match against the command without the leading bracketed timestamp. */
-	if ((command = strchr(command, ']')) == NULL) {
+	if (*command != '[' || (command = strchr(command, ']')) == NULL) {
 		warning("Timestamp missing from command submitted by %s",
 		    identity);
 		return false;
-- 
2.43.0


From 92163f2fb26a536975c2ee329b5507d18f930e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:28 +0000
Subject: [PATCH 11/49] fix: don't leave errors in OpenSSL's queue when a peer
 closes the connection

---
 src/common/tls.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/common/tls.c b/src/common/tls.c
index 194b714..e09e789 100644
--- a/src/common/tls.c
+++ b/src/common/tls.c
@@ -963,6 +963,7 @@ check_tls_error(EV_P_ ev_io *w, int code)
 	case SSL_ERROR_ZERO_RETURN:
 		warning_f("%s closed the TLS connection", peer);
 		(void)SSL_shutdown(tls->ssl); /* Try to send `close notify'. */
+		ERR_clear_error(); /* Don't confuse other connections. */
 		break;
 	case SSL_ERROR_SSL:
 		if (ERR_peek_error() != 0)
-- 
2.43.0


From 750f6a1cdfdfb2e40cb164fb14be710c8a4bd9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:28 +0000
Subject: [PATCH 12/49] fix: close the socket if setting up an accepted
 connection fails

---
 src/common/tls.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/tls.c b/src/common/tls.c
index e09e789..c088afb 100644
--- a/src/common/tls.c
+++ b/src/common/tls.c
@@ -538,7 +538,8 @@ tls_free(tls_state *tls)
 		/* The ID is set if the TLS handshake wasn't completed. */
 		free(SSL_get_app_data(tls->ssl));
 		SSL_free(tls->ssl);
-	}
+	} else if (tls->bio != NULL) /* SSL_free() would've freed this, too. */
+		BIO_free_all(tls->bio);
 
 	free(tls);
 }
-- 
2.43.0


From 21101a3ccb9fff78df82a09a61e91496a5e90958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:53 +0000
Subject: [PATCH 13/49] fix: don't truncate numbers sent by the client

---
 src/server/server.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/server/server.c b/src/server/server.c
index 3c419af..7c97c80 100644
--- a/src/server/server.c
+++ b/src/server/server.c
@@ -32,6 +32,7 @@
 #if HAVE_AIO_INIT
 # include <aio.h>
 #endif
+#include <limits.h>
 #include <stdarg.h>
 #include <stdlib.h>
 #include <string.h>
@@ -163,7 +164,7 @@ handle_handshake(tls_state * restrict tls, char * restrict line)
 			warning("Cannot parse MOIN request from %s", tls->peer);
 			send_response(tls, "FAIL Cannot parse MOIN request");
 			tls_read_line(tls, handle_handshake);
-		} else if (atoi(args[1]) <= 0) {
+		} else if (strtol(args[1], NULL, 10) <= 0) {
 			warning("Expected protocol version from %s", tls->peer);
 			send_response(tls, "FAIL Expected protocol version");
 			tls_read_line(tls, handle_handshake);
@@ -190,7 +191,7 @@ handle_connection(tls_state * restrict tls, char * restrict line)
 {
 	connection_state *connection = tls->data;
 	char *args[2];
-	int data_size;
+	long data_size;
 
 	info("%s C: %s", tls->peer, line);
 
@@ -202,12 +203,13 @@ handle_connection(tls_state * restrict tls, char * restrict line)
 			warning("Cannot parse PUSH request from %s", tls->peer);
 			send_response(tls, "FAIL Cannot parse PUSH request");
 			tls_read_line(tls, handle_connection);
-		} else if ((data_size = atoi(args[1])) <= 0) {
+		} else if ((data_size = strtol(args[1], NULL, 10)) <= 0) {
 			warning("Expected number of bytes from %s", tls->peer);
 			send_response(tls, "FAIL Expected number of bytes");
 			tls_read_line(tls, handle_connection);
-		} else if (connection->ctx->max_command_size > 0
-		    && (size_t)data_size > connection->ctx->max_command_size) {
+		} else if (data_size > INT_MAX
+		    || (connection->ctx->max_command_size > 0
+		    && (size_t)data_size > connection->ctx->max_command_size)) {
 			warning("Command from %s too long", tls->peer);
 			send_response(tls, "FAIL PUSH data size too large");
 			tls_read_line(tls, handle_connection);
-- 
2.43.0


From 12ddf7c5a22131271b031a7eb84d323743b2ab32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:19 +0000
Subject: [PATCH 14/49] fix: don't leak the command if closing the temporary
 file fails

---
 src/server/fifo.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/server/fifo.c b/src/server/fifo.c
index 831ea0d..d34da23 100644
--- a/src/server/fifo.c
+++ b/src/server/fifo.c
@@ -422,6 +422,8 @@ async_cb(EV_P_ ev_async *w, int revents __attribute__((__unused__)))
 		debug("Wrote %zd bytes to %s", n, fifo->dump_file);
 		if (close_dump_file(fifo))
 			fifo_write(fifo, command, strlen(command), free);
+		else
+			free(command);
 	}
 
 	if (buffers_exceed_pipe_size(fifo))
@@ -493,6 +495,8 @@ sync_dump_data(fifo_state *fifo)
 	command = make_process_file_command(fifo);
 	if (close_dump_file(fifo))
 		fifo_write(fifo, command, strlen(command), free);
+	else
+		free(command);
 }
 
 #endif
-- 
2.43.0


From f053e36792cf4c4a68da8d03e61bb4945b875398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:12 +0000
Subject: [PATCH 15/49] fix: Don't send CRLF-terminated commands

If the input lines or check results are CRLF-terminated, send_nsca handed the
carriage return on to the server as part of the command, although the protocol
demands that commands MUST NOT be CRLF-terminated.
---
 src/client/client.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/client/client.c b/src/client/client.c
index 2e8e3e2..df3c70f 100644
--- a/src/client/client.c
+++ b/src/client/client.c
@@ -140,7 +140,11 @@ handle_input_chunk(input_state * restrict input, char * restrict chunk)
 
 	free(chunk);
 
+	/* The PROTOCOL forbids CRLF-terminated commands. */
 	client->command_length = strlen(client->command);
+	while (client->command_length > 0
+	    && client->command[client->command_length - 1] == '\r')
+		client->command_length--;
 	client->command[client->command_length++] = '\n';
 
 	xasprintf(&request, "PUSH %u", client->command_length);
-- 
2.43.0


From b4e71f1e17e59f303d55d45532c603ec2b61ab96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:12 +0000
Subject: [PATCH 16/49] fix: Don't recurse on empty input chunks

Each empty input chunk made read_cb() call itself (by way of the chunk handler
and input_read_chunk()), so that a long run of blank lines could exhaust the
stack.
---
 src/client/input.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/client/input.c b/src/client/input.c
index 5b350c7..e827600 100644
--- a/src/client/input.c
+++ b/src/client/input.c
@@ -82,7 +82,8 @@ input_read_chunk(input_state *input, void handle_read(input_state *, char *))
 	if (!input->eof) {
 		input->read_handler = handle_read;
 		ev_io_start(EV_DEFAULT_UC_ &input->watcher);
-		ev_invoke(EV_DEFAULT_UC_ &input->watcher, EV_CUSTOM);
+		/* Using ev_invoke() would lead to recursion on empty chunks. */
+		ev_feed_event(EV_DEFAULT_UC_ &input->watcher, EV_CUSTOM);
 	} else {
 		debug("There's no (more) data available");
 		if (input->eof_handler != NULL)
-- 
2.43.0


From f5d696432695718a39e6514b0e0508dc414b523c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:11 +0000
Subject: [PATCH 17/49] fix: Don't take an escape sequence for a delimiter

With -d n, the "n" of the "\\n" which replaces a newline character
was mistaken for a field delimiter.
---
 src/client/parse.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/client/parse.c b/src/client/parse.c
index b37be8e..810a2e8 100644
--- a/src/client/parse.c
+++ b/src/client/parse.c
@@ -82,7 +82,9 @@ parse_check_result(const char *input, char delimiter)
 	n = 1;
 
 	for (pos = 0; n < 4 && input[pos] != '\0'; pos++)
-		if (input[pos] == delimiter) {
+		if (escaped != NULL && input[pos] == '\\')
+			pos++; /* Don't split within an escape sequence. */
+		else if (input[pos] == delimiter) {
 			lengths[n - 1] = pos - start_pos;
 			debug("Check result field %d has %d characters (%d-%d)",
 			    n, lengths[n - 1], start_pos, pos - 1);
-- 
2.43.0


From 9dc7a4dce2533047daac811b272724be9a92b25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:45 +0000
Subject: [PATCH 18/49] fix: Don't return unterminated configuration lines

If the last line of the file didn't end with a newline character and its
second-to-last character was a backslash, the returned string lacked the
terminating NUL character.  If the file ended with a continuation, the
backslash and the newline character weren't removed, and a backslash in
front of a CRLF sequence wasn't recognised as a continuation.
---
 src/client/conf.c | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/client/conf.c b/src/client/conf.c
index deb53f7..8dea16d 100644
--- a/src/client/conf.c
+++ b/src/client/conf.c
@@ -293,34 +293,32 @@ parse_conf_file(const char * restrict path, conf * restrict cfg)
 static char *
 read_conf_line(FILE *f)
 {
-	size_t len, pos = 0, size = 512;
+	size_t len, pos = 0, start = 0, size = 512;
 	char *line = xmalloc(size);
+	bool eof = true;
 
 	while ((len = xfgets(line + pos, (int)(size - pos), f)) > 0) {
+		eof = false;
 		pos += len;
-		if (line[pos - 1] != '\n' && pos == size - 1)
+		if (line[pos - 1] != '\n' && pos == size - 1) {
 			line = xrealloc(line, size *= 2);
-		else {
-			line_number++;
-			if (pos >= 2) {
-				if (line[pos - 2] == '\\') {
-					pos -= 2;
-					continue;
-				}
-				if (line[pos - 2] == '\r') {
-					line[pos - 2] = '\n';
-					line[pos - 1] = '\0';
-					pos--;
-				}
-			}
-			break;
+			continue;
+		}
+		line_number++;
+		if (line[pos - 1] == '\n') {
+			line[--pos] = '\0';
+			if (pos > start && line[pos - 1] == '\r')
+				line[--pos] = '\0';
 		}
+		if (pos == start || line[pos - 1] != '\\')
+			break;
+		line[--pos] = '\0'; /* The next line is a continuation. */
+		start = pos;
 	}
-	if (pos == 0) { /* EOF */
+	if (eof) {
 		free(line);
 		return NULL;
 	}
-	chomp(line);
 	return xrealloc(line, pos + 1);
 }
 
-- 
2.43.0


From bcc5f4ab86ad93690f5559cae0b93376ee886fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:45 +0000
Subject: [PATCH 19/49] fix: Accept a comment right after an unquoted value

---
 src/client/conf.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/client/conf.c b/src/client/conf.c
index 8dea16d..170796c 100644
--- a/src/client/conf.c
+++ b/src/client/conf.c
@@ -252,6 +252,8 @@ parse_conf_file(const char * restrict path, conf * restrict cfg)
 			}
 		}
 		value[len] = '\0';
+		if (done && quote_sign == 0)
+			in--; /* This might be the start of a comment. */
 
 		/*
 		 * Check the end of the line.
-- 
2.43.0


From 341ce8ffb84215db47f9d109dff835bd243f2242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:21 +0000
Subject: [PATCH 20/49] fix: Update the event loop's time after the startup
 delay

Otherwise, the connection timed out immediately if the (random) delay
exceeded the timeout.
---
 src/client/send_nsca.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/client/send_nsca.c b/src/client/send_nsca.c
index 2754150..68c66b2 100644
--- a/src/client/send_nsca.c
+++ b/src/client/send_nsca.c
@@ -110,8 +110,10 @@ main(int argc, char **argv)
 
 	debug("%s starting up", nsca_version());
 
-	if (conf_getint(cfg, "delay") != 0)
+	if (conf_getint(cfg, "delay") != 0) {
 		delay_execution((unsigned int)conf_getint(cfg, "delay"));
+		ev_now_update(EV_DEFAULT_UC);
+	}
 
 	xasprintf(&host_port, "%s:%s", conf_getstr(cfg, "server"),
 	    conf_getstr(cfg, "port"));
-- 
2.43.0


From 249625f864357acdeb63a1a9582684b9d05de3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:58 +0000
Subject: [PATCH 21/49] fix: Don't take over the ID of a key that wasn't used

With TLS 1.3, clients may offer multiple pre-shared keys.  If the ID of a
section with an empty password was offered first, and a session ticket
second, the ticket was accepted, and the client got the authorizations of
the first ID.
---
 src/server/auth.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/server/auth.c b/src/server/auth.c
index 2a2a192..ee8c0a8 100644
--- a/src/server/auth.c
+++ b/src/server/auth.c
@@ -58,6 +58,13 @@ check_psk(SSL *ssl, const char *identity, unsigned char *password,
 	const char *configured_pw;
 	size_t password_len;
 
+	/*
+	 * We might be called more than once.  Don't let the client resume some
+	 * session with an ID that was offered (and not accepted) previously.
+	 */
+	free(SSL_get_app_data(ssl));
+	(void)SSL_set_app_data(ssl, NULL);
+
 	if ((auth = hash_lookup(identity)) == NULL
 	    && (auth = hash_lookup("*")) == NULL) {
 		warning("Client-supplied ID `%s' is unknown", identity);
@@ -65,18 +72,23 @@ check_psk(SSL *ssl, const char *identity, unsigned char *password,
 	}
 	debug("Verifying key provided by %s", identity);
 
+	configured_pw = cfg_getstr(auth, "password");
+	password_len = MIN(strlen(configured_pw), max_password_len);
+
+	if (password_len == 0) { /* OpenSSL would continue without using it. */
+		warning("No password configured for `%s'", identity);
+		return 0;
+	}
+
 	/*
 	 * With (at least) OpenSSL 1.1.1b, SSL_get_psk_identity(3) returns NULL
 	 * when TLSv1.3 is used.  As a workaround, we store the ID ourselves:
 	 */
-	free(SSL_get_app_data(ssl)); /* We might be called more than once. */
 	if (SSL_set_app_data(ssl, xstrdup(identity)) != 1) {
 		error("Cannot store client-supplied ID (`%s')", identity);
 		return 0;
 	}
 
-	configured_pw = cfg_getstr(auth, "password");
-	password_len = MIN(strlen(configured_pw), max_password_len);
 	(void)memcpy(password, configured_pw, password_len);
 	return (unsigned int)password_len;
 }
-- 
2.43.0


From 9ec6666b851e4b1b8f498884d74a8e5054a731ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:16 +0000
Subject: [PATCH 22/49] fix: Perl, Python: Wait for the socket instead of
 polling it

The libraries called select(2) with a first argument of 1, so that the
socket wasn't looked at, and with a timeout which is decremented on Linux,
so that they used 100 % of a CPU after the first 100 ms.
---
 perl/client.c   | 42 +++++++++++++++++-------------------------
 python/client.c | 42 +++++++++++++++++-------------------------
 2 files changed, 34 insertions(+), 50 deletions(-)

diff --git a/perl/client.c b/perl/client.c
index 18f0ef4..37788d1 100644
--- a/perl/client.c
+++ b/perl/client.c
@@ -27,6 +27,7 @@
 
 #include <openssl/ssl.h>
 #include <openssl/err.h>
+#include <poll.h>
 #include <string.h>
 #include <time.h>
 
@@ -149,16 +150,23 @@ nscang_client_free(nscang_client_t *c)
 	c->state = NSCANG_STATE_NONE;
 }
 
+/* Wait (for a moment) until the socket is ready for whatever OpenSSL needs. */
+static void
+nscang_client_wait(nscang_client_t *c)
+{
+	struct pollfd pfd;
+
+	pfd.fd = BIO_get_fd(c->bio, NULL);
+	pfd.events = SSL_want_read(c->ssl) ? POLLIN : POLLOUT;
+	pfd.revents = 0;
+	(void)poll(&pfd, 1, 100);
+}
+
 int
 nscang_client_write(nscang_client_t *c, void *buf, int len, int timeout)
 {
 	int rc;
 	time_t endtime;
-	fd_set fdset;
-	struct timeval tv;
-
-	tv.tv_sec = 0;
-	tv.tv_usec = 100000;
 
 	endtime = time(NULL) + timeout;
 
@@ -176,9 +184,7 @@ nscang_client_write(nscang_client_t *c, void *buf, int len, int timeout)
 			return 0;
 		}
 
-		FD_ZERO(&fdset);
-		FD_SET(BIO_get_fd(c->bio, NULL), &fdset);
-		select(1, NULL, &fdset, NULL, &tv);
+		nscang_client_wait(c);
 	}
 }
 
@@ -187,14 +193,9 @@ nscang_client_response(nscang_client_t *c, int timeout)
 {
 	int rc;
 	time_t endtime;
-	fd_set fdset;
 	char buf[1024];
 	int was_read = 0;
 	char *ptr = buf;
-	struct timeval tv;
-
-	tv.tv_sec = 0;
-	tv.tv_usec = 100000;
 
 	endtime = time(NULL) + timeout;
 
@@ -228,9 +229,8 @@ nscang_client_response(nscang_client_t *c, int timeout)
 			return 0;
 		}
 
-		FD_ZERO(&fdset);
-		FD_SET(BIO_get_fd(c->bio, NULL), &fdset);
-		select(1, &fdset, NULL, NULL, &tv);
+		if (rc <= 0)
+			nscang_client_wait(c);
 	}
 
 	if (strncmp(buf, "MOIN", 4) == 0) {
@@ -270,19 +270,11 @@ nscang_client_response(nscang_client_t *c, int timeout)
 void
 nscang_client_disconnect(nscang_client_t *c)
 {
-	fd_set fdset;
-	struct timeval tv;
-
-	tv.tv_sec = 0;
-	tv.tv_usec = 100000;
-
 	if (c->state == NSCANG_STATE_MOIN)
 		nscang_client_send_quit(c);
 
 	if ((SSL_shutdown(c->ssl) == -1) && BIO_should_retry(c->bio)) {
-		FD_ZERO(&fdset);
-		FD_SET(BIO_get_fd(c->bio, NULL), &fdset);
-		select(1, NULL, &fdset, NULL, &tv);
+		nscang_client_wait(c);
 		SSL_shutdown(c->ssl);
 	}
 
diff --git a/python/client.c b/python/client.c
index 12747b9..f7572c6 100644
--- a/python/client.c
+++ b/python/client.c
@@ -27,6 +27,7 @@
 
 #include <openssl/ssl.h>
 #include <openssl/err.h>
+#include <poll.h>
 #include <string.h>
 #include <time.h>
 #include <pthread.h>
@@ -187,16 +188,23 @@ nscang_client_free(nscang_client_t *c)
 	c->state = NSCANG_STATE_NONE;
 }
 
+/* Wait (for a moment) until the socket is ready for whatever OpenSSL needs. */
+static void
+nscang_client_wait(nscang_client_t *c)
+{
+	struct pollfd pfd;
+
+	pfd.fd = BIO_get_fd(c->bio, NULL);
+	pfd.events = SSL_want_read(c->ssl) ? POLLIN : POLLOUT;
+	pfd.revents = 0;
+	(void)poll(&pfd, 1, 100);
+}
+
 int
 nscang_client_write(nscang_client_t *c, void *buf, int len, int timeout)
 {
 	int rc;
 	time_t endtime;
-	fd_set fdset;
-	struct timeval tv;
-
-	tv.tv_sec = 0;
-	tv.tv_usec = 100000;
 
 	endtime = time(NULL) + timeout;
 
@@ -214,9 +222,7 @@ nscang_client_write(nscang_client_t *c, void *buf, int len, int timeout)
 			return 0;
 		}
 
-		FD_ZERO(&fdset);
-		FD_SET(BIO_get_fd(c->bio, NULL), &fdset);
-		select(1, NULL, &fdset, NULL, &tv);
+		nscang_client_wait(c);
 	}
 }
 
@@ -225,14 +231,9 @@ nscang_client_response(nscang_client_t *c, int timeout)
 {
 	int rc;
 	time_t endtime;
-	fd_set fdset;
 	char buf[1024];
 	int was_read = 0;
 	char *ptr = buf;
-	struct timeval tv;
-
-	tv.tv_sec = 0;
-	tv.tv_usec = 100000;
 
 	endtime = time(NULL) + timeout;
 
@@ -266,9 +267,8 @@ nscang_client_response(nscang_client_t *c, int timeout)
 			return 0;
 		}
 
-		FD_ZERO(&fdset);
-		FD_SET(BIO_get_fd(c->bio, NULL), &fdset);
-		select(1, &fdset, NULL, NULL, &tv);
+		if (rc <= 0)
+			nscang_client_wait(c);
 	}
 
 	if (strncmp(buf, "MOIN", 4) == 0) {
@@ -308,19 +308,11 @@ nscang_client_response(nscang_client_t *c, int timeout)
 void
 nscang_client_disconnect(nscang_client_t *c)
 {
-	fd_set fdset;
-	struct timeval tv;
-
-	tv.tv_sec = 0;
-	tv.tv_usec = 100000;
-
 	if (c->state == NSCANG_STATE_MOIN)
 		nscang_client_send_quit(c);
 
 	if ((SSL_shutdown(c->ssl) == -1) && BIO_should_retry(c->bio)) {
-		FD_ZERO(&fdset);
-		FD_SET(BIO_get_fd(c->bio, NULL), &fdset);
-		select(1, NULL, &fdset, NULL, &tv);
+		nscang_client_wait(c);
 		SSL_shutdown(c->ssl);
 	}
 
-- 
2.43.0


From 2c3c8a7a2114ab0d2e9f24c114ae99216bdc4a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:29 +0000
Subject: [PATCH 23/49] fix: Perl, Python: Don't read beyond the server's
 response

If the response was an empty line, a byte in front of the buffer was
accessed; if FAIL, BAIL, or MOIN came without an argument, uninitialized
memory became part of the error message.
---
 perl/client.c   | 17 ++++++++++-------
 python/client.c | 17 ++++++++++-------
 2 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/perl/client.c b/perl/client.c
index 37788d1..52b9123 100644
--- a/perl/client.c
+++ b/perl/client.c
@@ -196,6 +196,7 @@ nscang_client_response(nscang_client_t *c, int timeout)
 	char buf[1024];
 	int was_read = 0;
 	char *ptr = buf;
+	const char *arg;
 
 	endtime = time(NULL) + timeout;
 
@@ -207,10 +208,9 @@ nscang_client_response(nscang_client_t *c, int timeout)
 			ptr = buf + was_read;
 
 			if (buf[was_read - 1] == '\n') {
-				if (buf[was_read - 2] == '\r')
-					buf[was_read - 2] = 0x00;
-				else
-					buf[was_read - 1] = 0x00;
+				buf[--was_read] = 0x00;
+				if (was_read > 0 && buf[was_read - 1] == '\r')
+					buf[--was_read] = 0x00;
 
 				break;
 			}
@@ -233,12 +233,15 @@ nscang_client_response(nscang_client_t *c, int timeout)
 			nscang_client_wait(c);
 	}
 
+	/* The argument may be missing. */
+	arg = strlen(buf) > 5 ? buf + 5 : "";
+
 	if (strncmp(buf, "MOIN", 4) == 0) {
 		if (strcmp(buf, "MOIN 1") == 0) {
 			return NSCANG_RESP_MOIN;
 		} else {
 			c->_errno = NSCANG_ERROR_BAD_PROTO_VERSION;
-			strncpy(c->errstr, buf + 5, sizeof(c->errstr) - 1);
+			strncpy(c->errstr, arg, sizeof(c->errstr) - 1);
 			c->errstr[sizeof(c->errstr) - 1] = 0x00;
 			return 0;
 		}
@@ -246,13 +249,13 @@ nscang_client_response(nscang_client_t *c, int timeout)
 		return NSCANG_RESP_OKAY;
 	} else if (strncmp(buf, "FAIL", 4) == 0) {
 		c->_errno = NSCANG_ERROR_FAIL;
-		strncpy(c->errstr, buf + 5, sizeof(c->errstr) - 1);
+		strncpy(c->errstr, arg, sizeof(c->errstr) - 1);
 		c->errstr[sizeof(c->errstr) - 1] = 0x00;
 		return 0;
 	} else if (strncmp(buf, "BAIL", 4) == 0) {
 		nscang_client_disconnect(c);
 		c->_errno = NSCANG_ERROR_BAIL;
-		strncpy(c->errstr, buf + 5, sizeof(c->errstr) - 1);
+		strncpy(c->errstr, arg, sizeof(c->errstr) - 1);
 		c->errstr[sizeof(c->errstr) - 1] = 0x00;
 		return 0;
 	} else {
diff --git a/python/client.c b/python/client.c
index f7572c6..4ef7e2c 100644
--- a/python/client.c
+++ b/python/client.c
@@ -234,6 +234,7 @@ nscang_client_response(nscang_client_t *c, int timeout)
 	char buf[1024];
 	int was_read = 0;
 	char *ptr = buf;
+	const char *arg;
 
 	endtime = time(NULL) + timeout;
 
@@ -245,10 +246,9 @@ nscang_client_response(nscang_client_t *c, int timeout)
 			ptr = buf + was_read;
 
 			if (buf[was_read - 1] == '\n') {
-				if (buf[was_read - 2] == '\r')
-					buf[was_read - 2] = 0x00;
-				else
-					buf[was_read - 1] = 0x00;
+				buf[--was_read] = 0x00;
+				if (was_read > 0 && buf[was_read - 1] == '\r')
+					buf[--was_read] = 0x00;
 
 				break;
 			}
@@ -271,12 +271,15 @@ nscang_client_response(nscang_client_t *c, int timeout)
 			nscang_client_wait(c);
 	}
 
+	/* The argument may be missing. */
+	arg = strlen(buf) > 5 ? buf + 5 : "";
+
 	if (strncmp(buf, "MOIN", 4) == 0) {
 		if (strcmp(buf, "MOIN 1") == 0) {
 			return NSCANG_RESP_MOIN;
 		} else {
 			c->_errno = NSCANG_ERROR_BAD_PROTO_VERSION;
-			strncpy(c->errstr, buf + 5, sizeof(c->errstr) - 1);
+			strncpy(c->errstr, arg, sizeof(c->errstr) - 1);
 			c->errstr[sizeof(c->errstr) - 1] = 0x00;
 			return 0;
 		}
@@ -284,13 +287,13 @@ nscang_client_response(nscang_client_t *c, int timeout)
 		return NSCANG_RESP_OKAY;
 	} else if (strncmp(buf, "FAIL", 4) == 0) {
 		c->_errno = NSCANG_ERROR_FAIL;
-		strncpy(c->errstr, buf + 5, sizeof(c->errstr) - 1);
+		strncpy(c->errstr, arg, sizeof(c->errstr) - 1);
 		c->errstr[sizeof(c->errstr) - 1] = 0x00;
 		return 0;
 	} else if (strncmp(buf, "BAIL", 4) == 0) {
 		nscang_client_disconnect(c);
 		c->_errno = NSCANG_ERROR_BAIL;
-		strncpy(c->errstr, buf + 5, sizeof(c->errstr) - 1);
+		strncpy(c->errstr, arg, sizeof(c->errstr) - 1);
 		c->errstr[sizeof(c->errstr) - 1] = 0x00;
 		return 0;
 	} else {
-- 
2.43.0


From f31a8d1b359a8e3ed9e52ef2bdbb93182cef4064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:42 +0000
Subject: [PATCH 24/49] fix: Perl, Python: Terminate all requests with CRLF

QUIT (and Python's PUSH) were terminated with a bare LF; of the BAIL
request, only as many bytes as a pointer has were sent.
---
 perl/client.c   | 7 ++++---
 python/client.c | 9 +++++----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/perl/client.c b/perl/client.c
index 52b9123..0e8d57a 100644
--- a/perl/client.c
+++ b/perl/client.c
@@ -259,9 +259,10 @@ nscang_client_response(nscang_client_t *c, int timeout)
 		c->errstr[sizeof(c->errstr) - 1] = 0x00;
 		return 0;
 	} else {
-		char *msg = "BAIL Unknown response!";
+		char msg[] = "BAIL Unknown response!\r\n";
 
-		nscang_client_write(c, msg, sizeof(msg), 0);
+		nscang_client_write(c, msg, sizeof(msg) - 1, 0);
+		c->state = NSCANG_STATE_NEW; /* Don't send QUIT. */
 		nscang_client_disconnect(c);
 		c->_errno = NSCANG_ERROR_UNKNOWN_RESPONSE;
 		strncpy(c->errstr, buf, sizeof(c->errstr) - 1);
@@ -430,7 +431,7 @@ nscang_client_send_quit(nscang_client_t *c)
 		return 0;
 	}
 
-	if (!nscang_client_write(c, "QUIT\n", 5, 0))
+	if (!nscang_client_write(c, "QUIT\r\n", 6, 0))
 		return 0;
 
 	return 1;
diff --git a/python/client.c b/python/client.c
index 4ef7e2c..40c3277 100644
--- a/python/client.c
+++ b/python/client.c
@@ -297,9 +297,10 @@ nscang_client_response(nscang_client_t *c, int timeout)
 		c->errstr[sizeof(c->errstr) - 1] = 0x00;
 		return 0;
 	} else {
-		char *msg = "BAIL Unknown response!";
+		char msg[] = "BAIL Unknown response!\r\n";
 
-		nscang_client_write(c, msg, sizeof(msg), 0);
+		nscang_client_write(c, msg, sizeof(msg) - 1, 0);
+		c->state = NSCANG_STATE_NEW; /* Don't send QUIT. */
 		nscang_client_disconnect(c);
 		c->_errno = NSCANG_ERROR_UNKNOWN_RESPONSE;
 		strncpy(c->errstr, buf, sizeof(c->errstr) - 1);
@@ -381,7 +382,7 @@ nscang_client_send_push(nscang_client_t *c, char *host, char *service,
 
 	command[len++] = '\n';
 
-	snprintf(cmd, sizeof(cmd), "PUSH %d\n", len);
+	snprintf(cmd, sizeof(cmd), "PUSH %d\r\n", len);
 	if (!nscang_client_write(c, cmd, strlen(cmd), timeout))
 		return 0;
 
@@ -419,7 +420,7 @@ nscang_client_send_quit(nscang_client_t *c)
 		return 0;
 	}
 
-	if (!nscang_client_write(c, "QUIT\n", 5, 0))
+	if (!nscang_client_write(c, "QUIT\r\n", 6, 0))
 		return 0;
 
 	return 1;
-- 
2.43.0


From c908d07999dda8ab5b562b6b2b6cdcd5ae113e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:42 +0000
Subject: [PATCH 25/49] fix: Perl, Python: Don't try to resume TLS sessions

After a disconnect, the TLS session was kept and offered to the server
again, which NSCA-ng servers refuse.
---
 perl/client.c   | 1 +
 python/client.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/perl/client.c b/perl/client.c
index 0e8d57a..460178e 100644
--- a/perl/client.c
+++ b/perl/client.c
@@ -283,6 +283,7 @@ nscang_client_disconnect(nscang_client_t *c)
 	}
 
 	SSL_clear(c->ssl);
+	SSL_set_session(c->ssl, NULL); /* Servers don't resume sessions. */
 	BIO_reset(c->bio);
 
 	c->state = NSCANG_STATE_NEW;
diff --git a/python/client.c b/python/client.c
index 40c3277..18d28e0 100644
--- a/python/client.c
+++ b/python/client.c
@@ -321,6 +321,7 @@ nscang_client_disconnect(nscang_client_t *c)
 	}
 
 	SSL_clear(c->ssl);
+	SSL_set_session(c->ssl, NULL); /* Servers don't resume sessions. */
 	BIO_reset(c->bio);
 
 	c->state = NSCANG_STATE_NEW;
-- 
2.43.0


From b5fa2a0f6e4496eee0858110f20e2ee71c62abfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:16 +0000
Subject: [PATCH 26/49] fix: Perl: Don't get killed by SIGPIPE if the server
 closes the connection

---
 perl/client.c | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/perl/client.c b/perl/client.c
index 460178e..88f8242 100644
--- a/perl/client.c
+++ b/perl/client.c
@@ -28,6 +28,7 @@
 #include <openssl/ssl.h>
 #include <openssl/err.h>
 #include <poll.h>
+#include <signal.h>
 #include <string.h>
 #include <time.h>
 
@@ -150,6 +151,18 @@ nscang_client_free(nscang_client_t *c)
 	c->state = NSCANG_STATE_NONE;
 }
 
+/* The server may close the connection at any time. */
+static void
+ignore_sigpipe(struct sigaction *old_action)
+{
+	struct sigaction action;
+
+	memset(&action, 0x00, sizeof(action));
+	action.sa_handler = SIG_IGN;
+	sigemptyset(&action.sa_mask);
+	sigaction(SIGPIPE, &action, old_action);
+}
+
 /* Wait (for a moment) until the socket is ready for whatever OpenSSL needs. */
 static void
 nscang_client_wait(nscang_client_t *c)
@@ -274,6 +287,10 @@ nscang_client_response(nscang_client_t *c, int timeout)
 void
 nscang_client_disconnect(nscang_client_t *c)
 {
+	struct sigaction old_action;
+
+	ignore_sigpipe(&old_action);
+
 	if (c->state == NSCANG_STATE_MOIN)
 		nscang_client_send_quit(c);
 
@@ -286,6 +303,8 @@ nscang_client_disconnect(nscang_client_t *c)
 	SSL_set_session(c->ssl, NULL); /* Servers don't resume sessions. */
 	BIO_reset(c->bio);
 
+	sigaction(SIGPIPE, &old_action, NULL);
+
 	c->state = NSCANG_STATE_NEW;
 }
 
@@ -340,8 +359,8 @@ has_timestamp_prefix(const char *s)
    return -1;
 }
 
-int
-nscang_client_send_command(nscang_client_t *c, const char *command, int timeout)
+static int
+send_command(nscang_client_t *c, const char *command, int timeout)
 {
    const int command_len = strlen(command);
 	char command_buf[1024];
@@ -406,6 +425,19 @@ nscang_client_send_command(nscang_client_t *c, const char *command, int timeout)
    return 1;
 }
 
+int
+nscang_client_send_command(nscang_client_t *c, const char *command, int timeout)
+{
+	struct sigaction old_action;
+	int rc;
+
+	ignore_sigpipe(&old_action);
+	rc = send_command(c, command, timeout);
+	sigaction(SIGPIPE, &old_action, NULL);
+
+	return rc;
+}
+
 int
 nscang_client_send_push(nscang_client_t *c, char *host, char *service,
                         int status, char *message, int timeout)
-- 
2.43.0


From e509a3cfc4b9bbfe18794fee6ed7200a82443bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:16 +0000
Subject: [PATCH 27/49] fix: Perl: Don't use error messages as format strings

They may contain text provided by the server.
---
 perl/Client.xs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/perl/Client.xs b/perl/Client.xs
index 0af06a2..2d992d3 100644
--- a/perl/Client.xs
+++ b/perl/Client.xs
@@ -218,4 +218,4 @@ command(self, command)
    self->client_initialized = 0;
    nscang_client_free(&(self->client));
 
-   croak(errstr);
+   croak("%s", errstr);
-- 
2.43.0


From 31c024c4cd3e968cd8d08f8354c434da50582606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:51 +0000
Subject: [PATCH 28/49] fix: Perl: Accept commands with timestamps after errors

errno wasn't reset before checking whether strtol(3) failed.
---
 perl/client.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/perl/client.c b/perl/client.c
index 88f8242..02584e9 100644
--- a/perl/client.c
+++ b/perl/client.c
@@ -27,6 +27,7 @@
 
 #include <openssl/ssl.h>
 #include <openssl/err.h>
+#include <errno.h>
 #include <poll.h>
 #include <signal.h>
 #include <string.h>
@@ -353,6 +354,7 @@ has_timestamp_prefix(const char *s)
 
    if(*s++ != '[') return 0;
    if((*s < '0') || (*s > '9')) return -1; // counter strtol's skip-whitespace and sign permissiveness
+   errno = 0;
    (void)strtol(s, &end, 10); // discard result
    if(errno) return -1;
    if(*end == ']') return 1;
-- 
2.43.0


From d28a2dc3032cda54617929eb716d2660d0ecf298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:51 +0000
Subject: [PATCH 29/49] fix: Perl, Python: Don't truncate commands

The libraries used buffers of 1024 bytes.  Commands which didn't fit were
truncated silently, and the Python library wrote beyond the buffer.
---
 perl/client.c   | 93 +++++++++++++++++++++++++++++++------------------
 python/client.c | 48 ++++++++++++++++---------
 2 files changed, 91 insertions(+), 50 deletions(-)

diff --git a/perl/client.c b/perl/client.c
index 02584e9..90ee270 100644
--- a/perl/client.c
+++ b/perl/client.c
@@ -362,37 +362,10 @@ has_timestamp_prefix(const char *s)
 }
 
 static int
-send_command(nscang_client_t *c, const char *command, int timeout)
+push_command(nscang_client_t *c, char *command, int len, int timeout)
 {
-   const int command_len = strlen(command);
-	char command_buf[1024];
 	char cmd[32];
-	int rc, len;
-
-   switch( has_timestamp_prefix(command) ) {
-      case 0 :
-         // There was no timestamp. Add one.
-         snprintf(command_buf, sizeof(command_buf)-1, "[%u] %s", (unsigned int)time(NULL), command);
-         break;
-      case 1 :
-         // Timestamp found, just copy everything
-         strncpy(command_buf, command, sizeof(command_buf)-1);
-         command_buf[sizeof(command_buf)-1] = '\0';
-         break;
-      default :
-         // Malformed timestamp
-         c->_errno = NSCANG_ERROR_FAIL;
-         snprintf(c->errstr, sizeof(c->errstr), "invalid time stamp format in command `%s'", command);
-         return 0;
-   }
-
-   /* make sure command_buf is newline-terminated */
-   len = strlen(command_buf);
-   if(command_buf[len-1] != '\n') {
-      command_buf[len] = '\n';
-      len++;
-      command_buf[len] = '\0';
-   }
+	int rc;
 
 	if (!nscang_client_send_moin(c, timeout))
       return 0;
@@ -411,7 +384,7 @@ send_command(nscang_client_t *c, const char *command, int timeout)
       return 0;
 	}
 
-	if (!nscang_client_write(c, command_buf, len, timeout))
+	if (!nscang_client_write(c, command, len, timeout))
       return 0;
 
 	rc = nscang_client_response(c, timeout);
@@ -427,6 +400,48 @@ send_command(nscang_client_t *c, const char *command, int timeout)
    return 1;
 }
 
+static int
+send_command(nscang_client_t *c, const char *command, int timeout)
+{
+   const size_t command_size = strlen(command) + 32; /* Timestamp, newline. */
+	char *command_buf;
+	int rc, len;
+
+   if((command_buf = malloc(command_size)) == NULL) {
+      c->_errno = NSCANG_ERROR_MALLOC;
+      return 0;
+   }
+
+   switch( has_timestamp_prefix(command) ) {
+      case 0 :
+         // There was no timestamp. Add one.
+         snprintf(command_buf, command_size, "[%u] %s", (unsigned int)time(NULL), command);
+         break;
+      case 1 :
+         // Timestamp found, just copy everything
+         strcpy(command_buf, command);
+         break;
+      default :
+         // Malformed timestamp
+         c->_errno = NSCANG_ERROR_FAIL;
+         snprintf(c->errstr, sizeof(c->errstr), "invalid time stamp format in command `%s'", command);
+         free(command_buf);
+         return 0;
+   }
+
+   /* make sure command_buf is newline-terminated */
+   len = strlen(command_buf);
+   if(command_buf[len-1] != '\n') {
+      command_buf[len] = '\n';
+      len++;
+      command_buf[len] = '\0';
+   }
+
+   rc = push_command(c, command_buf, len, timeout);
+   free(command_buf);
+   return rc;
+}
+
 int
 nscang_client_send_command(nscang_client_t *c, const char *command, int timeout)
 {
@@ -444,18 +459,28 @@ int
 nscang_client_send_push(nscang_client_t *c, char *host, char *service,
                         int status, char *message, int timeout)
 {
-	char command[1024];
+	const size_t size = strlen(host) + (service != NULL ? strlen(service) : 0)
+	    + strlen(message) + 64;
+	char *command;
+	int rc;
+
+	if ((command = malloc(size)) == NULL) {
+		c->_errno = NSCANG_ERROR_MALLOC;
+		return 0;
+	}
 
 	if (service == NULL)
-      snprintf(command, sizeof(command) - 1,
+      snprintf(command, size,
             "PROCESS_HOST_CHECK_RESULT;%s;%d;%s",
             host, status, message);
 	else
-      snprintf(command, sizeof(command) - 1,
+      snprintf(command, size,
             "PROCESS_SERVICE_CHECK_RESULT;%s;%s;%d;%s",
             host, service, status, message);
 
-   return nscang_client_send_command(c, command, timeout);
+   rc = nscang_client_send_command(c, command, timeout);
+   free(command);
+   return rc;
 }
 
 int
diff --git a/python/client.c b/python/client.c
index 18d28e0..25b5a30 100644
--- a/python/client.c
+++ b/python/client.c
@@ -362,27 +362,15 @@ nscang_client_send_moin(nscang_client_t *c, int timeout)
 	return 1;
 }
 
-int
-nscang_client_send_push(nscang_client_t *c, char *host, char *service,
-                        int status, char *message, int timeout)
+static int
+push_command(nscang_client_t *c, char *command, int len, int timeout)
 {
-	char cmd[64], command[1024];
-	int len, rc;
+	char cmd[64];
+	int rc;
 
 	if (!nscang_client_send_moin(c, timeout))
 		return 0;
 
-	if (service == NULL)
-		len = snprintf(command, sizeof(command) - 1,
-		    "[%u] PROCESS_HOST_CHECK_RESULT;%s;%d;%s",
-		    (unsigned int)time(NULL), host, status, message);
-	else
-		len = snprintf(command, sizeof(command) - 1,
-		    "[%u] PROCESS_SERVICE_CHECK_RESULT;%s;%s;%d;%s",
-		    (unsigned int)time(NULL), host, service, status, message);
-
-	command[len++] = '\n';
-
 	snprintf(cmd, sizeof(cmd), "PUSH %d\r\n", len);
 	if (!nscang_client_write(c, cmd, strlen(cmd), timeout))
 		return 0;
@@ -413,6 +401,34 @@ nscang_client_send_push(nscang_client_t *c, char *host, char *service,
 	return 1;
 }
 
+int
+nscang_client_send_push(nscang_client_t *c, char *host, char *service,
+                        int status, char *message, int timeout)
+{
+	const size_t size = strlen(host) + (service != NULL ? strlen(service) : 0)
+	    + strlen(message) + 96;
+	char *command;
+	int len, rc;
+
+	if ((command = malloc(size)) == NULL) {
+		c->_errno = NSCANG_ERROR_MALLOC;
+		return 0;
+	}
+
+	if (service == NULL)
+		len = snprintf(command, size,
+		    "[%u] PROCESS_HOST_CHECK_RESULT;%s;%d;%s\n",
+		    (unsigned int)time(NULL), host, status, message);
+	else
+		len = snprintf(command, size,
+		    "[%u] PROCESS_SERVICE_CHECK_RESULT;%s;%s;%d;%s\n",
+		    (unsigned int)time(NULL), host, service, status, message);
+
+	rc = push_command(c, command, len, timeout);
+	free(command);
+	return rc;
+}
+
 int
 nscang_client_send_quit(nscang_client_t *c)
 {
-- 
2.43.0


From 57d90a9df6dc1d8e446be41adfd2b07d2a502b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:16 +0000
Subject: [PATCH 30/49] fix: Perl: Don't leak the object if the constructor
 fails

---
 perl/Client.xs | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/perl/Client.xs b/perl/Client.xs
index 2d992d3..0af3651 100644
--- a/perl/Client.xs
+++ b/perl/Client.xs
@@ -57,19 +57,17 @@ static int init_object(
    return 0;
 }
 
-static void init_client(nscang_object_t *o)
+static int init_client(nscang_object_t *o, char *errstr, int errstr_size)
 {
 
    // Initialize the client library
    if(!nscang_client_init(&o->client, o->host, o->port, o->ciphers, o->identity, o->psk)) {
-      char errstr[1024];
-
+      nscang_client_errstr(&o->client, errstr, errstr_size);
       nscang_client_free(&o->client);
-      croak("nscang_client_init: %s",
-            nscang_client_errstr(&o->client, errstr, sizeof(errstr))
-           );
+      return 0;
    }
    o->client_initialized = 1;
+   return 1;
 }
 
 static void free_object(nscang_object_t *o) {
@@ -102,6 +100,8 @@ _new(class, host, port, identity, psk, ciphers, node_name, svc_description, time
    int timeout
 
    CODE:
+      char errstr[1024];
+
       // Alloc new object
       Newxz(RETVAL, 1, nscang_object_t);
       if(!RETVAL)
@@ -114,10 +114,15 @@ _new(class, host, port, identity, psk, ciphers, node_name, svc_description, time
                SV_OR_NULL(svc_description), timeout)
         ) {
          free_object(RETVAL);
+         Safefree(RETVAL);
          croak("no memory for object");
       }
 
-      init_client(RETVAL);
+      if(!init_client(RETVAL, errstr, sizeof(errstr))) {
+         free_object(RETVAL);
+         Safefree(RETVAL);
+         croak("nscang_client_init: %s", errstr);
+      }
    OUTPUT:
       RETVAL
 
@@ -146,8 +151,8 @@ _result(self, is_host_result, node_name, svc_description, return_code, plugin_ou
    char errstr[1024];
    nscang_client_t *client = &self->client;
 
-   if(!self->client_initialized)
-      init_client(self);
+   if(!self->client_initialized && !init_client(self, errstr, sizeof(errstr)))
+      croak("nscang_client_init: %s", errstr);
 
    if(SvOK(node_name))
       cnode_name = SvPV_nolen(node_name);
@@ -197,8 +202,8 @@ command(self, command)
    char *ccommand;
    nscang_client_t *client = &self->client;
 
-   if(!self->client_initialized)
-      init_client(self);
+   if(!self->client_initialized && !init_client(self, errstr, sizeof(errstr)))
+      croak("nscang_client_init: %s", errstr);
 
    if(SvOK(command)) {
       ccommand = SvPV_nolen(command);
-- 
2.43.0


From 706e739e3f03f9dd5bc37ab4cfd4bfad405b14bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:16 +0000
Subject: [PATCH 31/49] fix: Python: Don't keep pointers to the constructor's
 arguments

The host attribute was read from memory which may have been freed.  Also,
if the arguments couldn't be parsed, a NULL pointer was dereferenced, and
the memory for the connection state was never freed.
---
 python/nscang.c | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/python/nscang.c b/python/nscang.c
index 1fd59d9..4a62c32 100644
--- a/python/nscang.c
+++ b/python/nscang.c
@@ -37,9 +37,6 @@ typedef struct {
 	PyObject_HEAD
 	char *host;
 	unsigned int port;
-	char *identity;
-	char *psk;
-	char *ciphers;
 	nscang_client_t *client;
 	/* Type-specific fields go here. */
 } NSCAngNotifyer;
@@ -117,27 +114,36 @@ NSCAngNotifyer_init(NSCAngNotifyer *self, PyObject *args, PyObject *kwds)
 	char errstr[1024];
 	static char *kwlist[] = { "host", "port", "identity", "psk", "ciphers",
 	    NULL };
+	char *host = NULL;
+	char *identity = NULL;
+	char *psk = NULL;
+	char *ciphers = NULL;
+	unsigned int port = 5668;
 
-	self->host = NULL;
-	self->port = 5668;
-	self->identity = NULL;
-	self->psk = NULL;
-	self->ciphers = NULL;
-
+	/* The strings belong to the caller's objects. */
 	if (!PyArg_ParseTupleAndKeywords(args, kwds, "sIss|s:__init__", kwlist,
-	    &self->host, &self->port, &self->identity,
-	    &self->psk, &self->ciphers))
+	    &host, &port, &identity, &psk, &ciphers))
 		return -1;
 
+	if (self->client != NULL) { /* We've been called before. */
+		nscang_client_free(self->client);
+		free(self->client);
+	}
+	free(self->host);
+
+	self->port = port;
+	self->host = strdup(host);
 	self->client = malloc(sizeof(nscang_client_t));
-	if (self->client == NULL) {
+	if (self->host == NULL || self->client == NULL) {
+		free(self->client);
+		self->client = NULL;
 		PyErr_Format(PyExc_MemoryError,
 		    "Can't allocate memory for NSCAng connection state");
 		return -1;
 	}
 
 	if (!nscang_client_init(self->client, self->host, self->port,
-		self->ciphers, self->identity, self->psk)) {
+		ciphers, identity, psk)) {
 		PyErr_Format(PyExc_RuntimeError, "nscang_client_init: %s",
 		    nscang_client_errstr(self->client, errstr, sizeof(errstr)));
 		return -1;
@@ -149,7 +155,11 @@ NSCAngNotifyer_init(NSCAngNotifyer *self, PyObject *args, PyObject *kwds)
 static void
 NSCAngNotifyer_dealloc(NSCAngNotifyer *self)
 {
-	nscang_client_free(self->client);
+	if (self->client != NULL) {
+		nscang_client_free(self->client);
+		free(self->client);
+	}
+	free(self->host);
 	Py_TYPE(self)->tp_free((PyObject *)self);
 }
 
-- 
2.43.0


From 45318fa7aa9db9a4faca4453b4aebc8f53b9b25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:33 +0000
Subject: [PATCH 32/49] fix: Perl, Python: Don't repeat TLS operations which
 have failed for good

The retry flag of the BIO may be left over from an earlier operation.  The
libraries then kept calling OpenSSL, using 100 % of a CPU, until the
timeout was reached.
---
 perl/client.c   | 25 ++++++++++++++++++++++---
 python/client.c | 26 +++++++++++++++++++++++---
 2 files changed, 45 insertions(+), 6 deletions(-)

diff --git a/perl/client.c b/perl/client.c
index 90ee270..ffcc687 100644
--- a/perl/client.c
+++ b/perl/client.c
@@ -164,6 +164,20 @@ ignore_sigpipe(struct sigaction *old_action)
 	sigaction(SIGPIPE, &action, old_action);
 }
 
+/* Check whether a failed operation just has to be repeated. */
+static int
+nscang_client_should_retry(nscang_client_t *c, int rc)
+{
+	switch (SSL_get_error(c->ssl, rc)) {
+	case SSL_ERROR_WANT_READ:
+	case SSL_ERROR_WANT_WRITE:
+	case SSL_ERROR_WANT_CONNECT:
+		return 1;
+	default:
+		return 0;
+	}
+}
+
 /* Wait (for a moment) until the socket is ready for whatever OpenSSL needs. */
 static void
 nscang_client_wait(nscang_client_t *c)
@@ -185,10 +199,11 @@ nscang_client_write(nscang_client_t *c, void *buf, int len, int timeout)
 	endtime = time(NULL) + timeout;
 
 	while (1) {
+		ERR_clear_error();
 		if ((rc = SSL_write(c->ssl, buf, len)) > 0)
 			return 1;
 
-		if (!BIO_should_retry(c->bio)) {
+		if (!nscang_client_should_retry(c, rc)) {
 			c->_errno = NSCANG_ERROR_SSL;
 			return 0;
 		}
@@ -215,6 +230,7 @@ nscang_client_response(nscang_client_t *c, int timeout)
 	endtime = time(NULL) + timeout;
 
 	while (1) {
+		ERR_clear_error();
 		rc = SSL_read(c->ssl, ptr, 1024 - was_read);
 
 		if (rc > 0) {
@@ -233,7 +249,7 @@ nscang_client_response(nscang_client_t *c, int timeout)
 				c->_errno = NSCANG_ERROR_TOO_LONG_RESPONSE;
 				return 0;
 			}
-		} else if (!BIO_should_retry(c->bio)) {
+		} else if (!nscang_client_should_retry(c, rc)) {
 			c->_errno = NSCANG_ERROR_SSL;
 			return 0;
 		}
@@ -289,13 +305,16 @@ void
 nscang_client_disconnect(nscang_client_t *c)
 {
 	struct sigaction old_action;
+	int rc;
 
 	ignore_sigpipe(&old_action);
 
 	if (c->state == NSCANG_STATE_MOIN)
 		nscang_client_send_quit(c);
 
-	if ((SSL_shutdown(c->ssl) == -1) && BIO_should_retry(c->bio)) {
+	ERR_clear_error();
+	if (((rc = SSL_shutdown(c->ssl)) == -1) &&
+	    nscang_client_should_retry(c, rc)) {
 		nscang_client_wait(c);
 		SSL_shutdown(c->ssl);
 	}
diff --git a/python/client.c b/python/client.c
index 25b5a30..201ce1d 100644
--- a/python/client.c
+++ b/python/client.c
@@ -188,6 +188,20 @@ nscang_client_free(nscang_client_t *c)
 	c->state = NSCANG_STATE_NONE;
 }
 
+/* Check whether a failed operation just has to be repeated. */
+static int
+nscang_client_should_retry(nscang_client_t *c, int rc)
+{
+	switch (SSL_get_error(c->ssl, rc)) {
+	case SSL_ERROR_WANT_READ:
+	case SSL_ERROR_WANT_WRITE:
+	case SSL_ERROR_WANT_CONNECT:
+		return 1;
+	default:
+		return 0;
+	}
+}
+
 /* Wait (for a moment) until the socket is ready for whatever OpenSSL needs. */
 static void
 nscang_client_wait(nscang_client_t *c)
@@ -209,10 +223,11 @@ nscang_client_write(nscang_client_t *c, void *buf, int len, int timeout)
 	endtime = time(NULL) + timeout;
 
 	while (1) {
+		ERR_clear_error();
 		if ((rc = SSL_write(c->ssl, buf, len)) > 0)
 			return 1;
 
-		if (!BIO_should_retry(c->bio)) {
+		if (!nscang_client_should_retry(c, rc)) {
 			c->_errno = NSCANG_ERROR_SSL;
 			return 0;
 		}
@@ -239,6 +254,7 @@ nscang_client_response(nscang_client_t *c, int timeout)
 	endtime = time(NULL) + timeout;
 
 	while (1) {
+		ERR_clear_error();
 		rc = SSL_read(c->ssl, ptr, 1024 - was_read);
 
 		if (rc > 0) {
@@ -257,7 +273,7 @@ nscang_client_response(nscang_client_t *c, int timeout)
 				c->_errno = NSCANG_ERROR_TOO_LONG_RESPONSE;
 				return 0;
 			}
-		} else if (!BIO_should_retry(c->bio)) {
+		} else if (!nscang_client_should_retry(c, rc)) {
 			c->_errno = NSCANG_ERROR_SSL;
 			return 0;
 		}
@@ -312,10 +328,14 @@ nscang_client_response(nscang_client_t *c, int timeout)
 void
 nscang_client_disconnect(nscang_client_t *c)
 {
+	int rc;
+
 	if (c->state == NSCANG_STATE_MOIN)
 		nscang_client_send_quit(c);
 
-	if ((SSL_shutdown(c->ssl) == -1) && BIO_should_retry(c->bio)) {
+	ERR_clear_error();
+	if (((rc = SSL_shutdown(c->ssl)) == -1) &&
+	    nscang_client_should_retry(c, rc)) {
 		nscang_client_wait(c);
 		SSL_shutdown(c->ssl);
 	}
-- 
2.43.0


From 8199fbb5f93e08c4f75461694d7198dee07473d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:38 +0000
Subject: [PATCH 33/49] fix: Python: Don't pass NULL pointers to snprintf(3)

There's not always an error in OpenSSL's queue, and not all errors have a
reason string.
---
 python/client.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/client.c b/python/client.c
index 201ce1d..68b4a20 100644
--- a/python/client.c
+++ b/python/client.c
@@ -466,6 +466,8 @@ nscang_client_send_quit(nscang_client_t *c)
 char *
 nscang_client_errstr(nscang_client_t *c, char *buf, int buf_size)
 {
+	const char *last_error, *first_error;
+
 	switch (c->_errno) {
 	case NSCANG_ERROR_SSL_CTX_CREATE:
 		strncpy(buf, "Can't create SSL context", buf_size);
@@ -480,9 +482,11 @@ nscang_client_errstr(nscang_client_t *c, char *buf, int buf_size)
 		strncpy(buf, "Can't create SSL", buf_size);
 		break;
 	case NSCANG_ERROR_SSL:
+		last_error = ERR_reason_error_string(ERR_peek_last_error());
+		first_error = ERR_reason_error_string(ERR_peek_error());
 		snprintf(buf, buf_size, "SSL error - %s - %s",
-		    ERR_reason_error_string(ERR_peek_last_error()),
-		    ERR_reason_error_string(ERR_peek_error()));
+		    last_error != NULL ? last_error : "unknown reason",
+		    first_error != NULL ? first_error : "unknown reason");
 		break;
 	case NSCANG_ERROR_MALLOC:
 		strncpy(buf, "Can't allocate memory", buf_size);
-- 
2.43.0


From f004c459e1854842e8f7bde72787d4fd203df4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:30 +0000
Subject: [PATCH 34/49] fix: Python: Don't continue a session after giving up

If the second attempt failed, the connection was used for the next result,
too, so that the response to the previous request could be taken for the
response to the next one.
---
 python/nscang.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/nscang.c b/python/nscang.c
index 4a62c32..eec43d8 100644
--- a/python/nscang.c
+++ b/python/nscang.c
@@ -71,6 +71,7 @@ nscang_host_result(PyObject *self, PyObject *args, PyObject *kwds)
 
 	PyErr_Format(PyExc_RuntimeError, "host_result: %s",
 	    nscang_client_errstr(client, errstr, sizeof(errstr)));
+	nscang_client_disconnect(client); /* Start over the next time. */
 	return NULL;
 }
 
@@ -105,6 +106,7 @@ nscang_svc_result(PyObject *self, PyObject *args, PyObject *kwds)
 
 	PyErr_Format(PyExc_RuntimeError, "svc_result: %s",
 	    nscang_client_errstr(client, errstr, sizeof(errstr)));
+	nscang_client_disconnect(client); /* Start over the next time. */
 	return NULL;
 }
 
-- 
2.43.0


From 924bad5dfebeace8046f0242d45b99fcf2c3a1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:52 +0000
Subject: [PATCH 35/49] fix: Don't block in accept(2) if systemd passes a
 blocking socket

---
 src/common/tls.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/common/tls.c b/src/common/tls.c
index c088afb..8bd78c5 100644
--- a/src/common/tls.c
+++ b/src/common/tls.c
@@ -203,6 +203,7 @@ tls_server_start(const char * restrict host_port,
 		if ((ctx->bio = BIO_new(BIO_s_accept())) == NULL)
 			die("Cannot create BIO object");
 		(void)BIO_set_fd(ctx->bio, listen_socket, BIO_NOCLOSE);
+		(void)BIO_socket_nbio(listen_socket, 1);
 	}
 
 	/*
-- 
2.43.0


From 193876b8d6d454ac30747561d61affabc92da7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:52 +0000
Subject: [PATCH 36/49] fix: Include files with quotation marks or backslashes
 in their names

---
 src/server/conf.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/server/conf.c b/src/server/conf.c
index 9e4c6f8..5773eb8 100644
--- a/src/server/conf.c
+++ b/src/server/conf.c
@@ -157,12 +157,21 @@ conf_parse(const char *path)
 static int
 parse_include(cfg_t * restrict cfg, const char * restrict path)
 {
-	char *include_statement;
+	const char *in;
+	char *include_statement, *out, *quoted = xmalloc(2 * strlen(path) + 1);
 	int status;
 
-	xasprintf(&include_statement, "include('%s')", path);
+	for (in = path, out = quoted; *in != '\0'; in++) {
+		if (*in == '\'' || *in == '\\')
+			*out++ = '\\';
+		*out++ = *in;
+	}
+	*out = '\0';
+
+	xasprintf(&include_statement, "include('%s')", quoted);
 	status = cfg_parse_buf(cfg, include_statement);
 	free(include_statement);
+	free(quoted);
 	return status;
 }
 
-- 
2.43.0


From 405419c0d34ed8ad0ca56e048a7ecd73980e8dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:52 +0000
Subject: [PATCH 37/49] fix: Accept -S without -F if socket activated

---
 src/server/nsca-ng.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/server/nsca-ng.c b/src/server/nsca-ng.c
index 4448718..f200bbe 100644
--- a/src/server/nsca-ng.c
+++ b/src/server/nsca-ng.c
@@ -135,7 +135,8 @@ main(int argc, char **argv)
 			opt->log_target = LOG_TARGET_STDERR;
 		else
 			opt->log_target = LOG_TARGET_SYSLOG;
-	} else if (!opt->foreground && opt->log_target & LOG_TARGET_STDERR)
+	} else if (!opt->foreground && !socket_activated
+	    && opt->log_target & LOG_TARGET_STDERR)
 		die("The `-S' option may not be specified without `-F'");
 
 	if (opt->log_level != -1)
-- 
2.43.0


From 5746a2aba0ae0996c1658cb982f27e8e3c99bbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:52 +0000
Subject: [PATCH 38/49] fix: Keep the socket passed by systemd when restarting

---
 src/server/nsca-ng.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/server/nsca-ng.c b/src/server/nsca-ng.c
index f200bbe..f777594 100644
--- a/src/server/nsca-ng.c
+++ b/src/server/nsca-ng.c
@@ -231,6 +231,8 @@ main(int argc, char **argv)
 		remove_pidfile();
 		forget_config();
 		stop_keep_alive();
+		if (socket_activated) /* Let the new process inherit the socket. */
+			(void)fcntl(SD_LISTEN_FDS_START, F_SETFD, 0);
 		execvp(argv[0], argv);
 		die("Cannot restart myself: %m");
 	}
-- 
2.43.0


From e9dd18155affacfcfa6f1df383a1def5e9dcb5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:28 +0000
Subject: [PATCH 39/49] fix: Don't interpret backslashes in plugin output and
 comments

---
 contrib/acknowledge  | 4 ++--
 contrib/downtime     | 4 ++--
 contrib/invoke_check | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/contrib/acknowledge b/contrib/acknowledge
index 31debb5..a23cc43 100755
--- a/contrib/acknowledge
+++ b/contrib/acknowledge
@@ -57,10 +57,10 @@ comment=${comment:-"Submitted by send_nsca@`hostname -s`"}
 
 if [ -z "$service" ]
 then	# Host acknowledgement.
-	printf '%b' "ACKNOWLEDGE_HOST_PROBLEM;$host;1;0;1;$author;$comment\n" \
+	printf '%s\n' "ACKNOWLEDGE_HOST_PROBLEM;$host;1;0;1;$author;$comment" \
 	    | send_nsca -C $send_nsca_args
 else	# Service acknowledgement.
-	printf '%b' "ACKNOWLEDGE_SVC_PROBLEM;$host;$service;1;0;1;$author;$comment\n" \
+	printf '%s\n' "ACKNOWLEDGE_SVC_PROBLEM;$host;$service;1;0;1;$author;$comment" \
 	    | send_nsca -C $send_nsca_args
 fi
 
diff --git a/contrib/downtime b/contrib/downtime
index fa173b2..a61e00c 100755
--- a/contrib/downtime
+++ b/contrib/downtime
@@ -73,10 +73,10 @@ comment=${comment:-"Submitted by send_nsca@`hostname -s`"}
 
 if [ -z "$service" ]
 then	# Host check.
-	printf '%b' "SCHEDULE_HOST_DOWNTIME;$host;$start;$end;1;0;0;$author;$comment\n" \
+	printf '%s\n' "SCHEDULE_HOST_DOWNTIME;$host;$start;$end;1;0;0;$author;$comment" \
 	    | send_nsca -C $send_nsca_args
 else	# Service check.
-	printf '%b' "SCHEDULE_SVC_DOWNTIME;$host;$service;$start;$end;1;0;0;$author;$comment\n" \
+	printf '%s\n' "SCHEDULE_SVC_DOWNTIME;$host;$service;$start;$end;1;0;0;$author;$comment" \
 	    | send_nsca -C $send_nsca_args
 fi
 
diff --git a/contrib/invoke_check b/contrib/invoke_check
index abe6341..ea71eaa 100755
--- a/contrib/invoke_check
+++ b/contrib/invoke_check
@@ -57,6 +57,6 @@ state=$?
 
 test $state -le 3 || die "$0: '$@' yields invalid plugin return code $state"
 
-printf '%b' "$host\t$service\t$state\t$output\n" | send_nsca $send_nsca_args
+printf '%s\t%s\t%s\t%s\n' "$host" "$service" "$state" "$output" | send_nsca $send_nsca_args
 
 # vim:set joinspaces noexpandtab textwidth=80:
-- 
2.43.0


From 0566069ba5f4ff4958ea01f7a6244ab3f64607ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:28 +0000
Subject: [PATCH 40/49] fix: Accept downtime's dates with white space

---
 contrib/downtime | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/contrib/downtime b/contrib/downtime
index a61e00c..d49031f 100755
--- a/contrib/downtime
+++ b/contrib/downtime
@@ -66,8 +66,8 @@ test $# -eq 0 || usage
 
 host=${host:-`hostname -s`}
 service=${service:+$service}
-start=`date -d ${start:-'now'} '+%s'`
-end=`date -d ${end:-'+2 hours'} '+%s'`
+start=`date -d "${start:-now}" '+%s'`
+end=`date -d "${end:-+2 hours}" '+%s'`
 author=`getent passwd "$USER" | cut -d: -f5`
 comment=${comment:-"Submitted by send_nsca@`hostname -s`"}
 
-- 
2.43.0


From d832edc07fbc4376c78cc4f3da5ba8acaa0493b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:28 +0000
Subject: [PATCH 41/49] fix: Let the scripts accept configuration file names
 with white space

---
 contrib/acknowledge           | 7 ++++---
 contrib/disable_notifications | 5 +++--
 contrib/downtime              | 7 ++++---
 contrib/enable_notifications  | 5 +++--
 contrib/invoke_check          | 5 +++--
 5 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/contrib/acknowledge b/contrib/acknowledge
index a23cc43..aeb018a 100755
--- a/contrib/acknowledge
+++ b/contrib/acknowledge
@@ -14,6 +14,7 @@ set -e
 set -u
 
 send_nsca_args=${SEND_NSCA_ARGS:+$SEND_NSCA_ARGS}
+unset config_file
 
 die()
 {
@@ -33,7 +34,7 @@ do
 		comment=$OPTARG
 		;;
 	c)
-		send_nsca_args="${send_nsca_args:+$send_nsca_args }-c $OPTARG"
+		config_file=$OPTARG
 		;;
 	H)
 		host=$OPTARG
@@ -58,10 +59,10 @@ comment=${comment:-"Submitted by send_nsca@`hostname -s`"}
 if [ -z "$service" ]
 then	# Host acknowledgement.
 	printf '%s\n' "ACKNOWLEDGE_HOST_PROBLEM;$host;1;0;1;$author;$comment" \
-	    | send_nsca -C $send_nsca_args
+	    | send_nsca -C $send_nsca_args ${config_file+-c "$config_file"}
 else	# Service acknowledgement.
 	printf '%s\n' "ACKNOWLEDGE_SVC_PROBLEM;$host;$service;1;0;1;$author;$comment" \
-	    | send_nsca -C $send_nsca_args
+	    | send_nsca -C $send_nsca_args ${config_file+-c "$config_file"}
 fi
 
 # vim:set joinspaces noexpandtab textwidth=80:
diff --git a/contrib/disable_notifications b/contrib/disable_notifications
index f773843..dd46b16 100755
--- a/contrib/disable_notifications
+++ b/contrib/disable_notifications
@@ -14,6 +14,7 @@ set -e
 set -u
 
 send_nsca_args=${SEND_NSCA_ARGS:+$SEND_NSCA_ARGS}
+unset config_file
 
 die()
 {
@@ -30,7 +31,7 @@ while getopts c:h option
 do
 	case $option in
 	c)
-		send_nsca_args="${send_nsca_args:+$send_nsca_args }-c $OPTARG"
+		config_file=$OPTARG
 		;;
 	h|\?)
 		usage
@@ -41,6 +42,6 @@ done
 shift `expr $OPTIND - 1`
 test $# -eq 0 || usage
 
-printf '%b' 'DISABLE_NOTIFICATIONS\n' | send_nsca -C $send_nsca_args
+printf '%b' 'DISABLE_NOTIFICATIONS\n' | send_nsca -C $send_nsca_args ${config_file+-c "$config_file"}
 
 # vim:set joinspaces noexpandtab textwidth=80:
diff --git a/contrib/downtime b/contrib/downtime
index d49031f..98c2317 100755
--- a/contrib/downtime
+++ b/contrib/downtime
@@ -19,6 +19,7 @@ set -e
 set -u
 
 send_nsca_args=${SEND_NSCA_ARGS:+$SEND_NSCA_ARGS}
+unset config_file
 
 die()
 {
@@ -41,7 +42,7 @@ do
 		comment=$OPTARG
 		;;
 	c)
-		send_nsca_args="${send_nsca_args:+$send_nsca_args }-c $OPTARG"
+		config_file=$OPTARG
 		;;
 	e)
 		end=$OPTARG
@@ -74,10 +75,10 @@ comment=${comment:-"Submitted by send_nsca@`hostname -s`"}
 if [ -z "$service" ]
 then	# Host check.
 	printf '%s\n' "SCHEDULE_HOST_DOWNTIME;$host;$start;$end;1;0;0;$author;$comment" \
-	    | send_nsca -C $send_nsca_args
+	    | send_nsca -C $send_nsca_args ${config_file+-c "$config_file"}
 else	# Service check.
 	printf '%s\n' "SCHEDULE_SVC_DOWNTIME;$host;$service;$start;$end;1;0;0;$author;$comment" \
-	    | send_nsca -C $send_nsca_args
+	    | send_nsca -C $send_nsca_args ${config_file+-c "$config_file"}
 fi
 
 # vim:set joinspaces noexpandtab textwidth=80:
diff --git a/contrib/enable_notifications b/contrib/enable_notifications
index bb122fe..4463778 100755
--- a/contrib/enable_notifications
+++ b/contrib/enable_notifications
@@ -14,6 +14,7 @@ set -e
 set -u
 
 send_nsca_args=${SEND_NSCA_ARGS:+$SEND_NSCA_ARGS}
+unset config_file
 
 die()
 {
@@ -30,7 +31,7 @@ while getopts c:h option
 do
 	case $option in
 	c)
-		send_nsca_args="${send_nsca_args:+$send_nsca_args }-c $OPTARG"
+		config_file=$OPTARG
 		;;
 	h|\?)
 		usage
@@ -41,6 +42,6 @@ done
 shift `expr $OPTIND - 1`
 test $# -eq 0 || usage
 
-printf '%b' 'ENABLE_NOTIFICATIONS\n' | send_nsca -C $send_nsca_args
+printf '%b' 'ENABLE_NOTIFICATIONS\n' | send_nsca -C $send_nsca_args ${config_file+-c "$config_file"}
 
 # vim:set joinspaces noexpandtab textwidth=80:
diff --git a/contrib/invoke_check b/contrib/invoke_check
index ea71eaa..e46f60e 100755
--- a/contrib/invoke_check
+++ b/contrib/invoke_check
@@ -13,6 +13,7 @@
 set -u
 
 send_nsca_args=${SEND_NSCA_ARGS:+$SEND_NSCA_ARGS}
+unset config_file
 
 PATH="$PATH:/usr/local/nagios/libexec:/usr/lib/nagios/plugins"
 export PATH
@@ -33,7 +34,7 @@ while getopts c:H:hS: option
 do
 	case $option in
 	c)
-		send_nsca_args="${send_nsca_args:+$send_nsca_args }-c $OPTARG"
+		config_file=$OPTARG
 		;;
 	H)
 		host=$OPTARG
@@ -57,6 +58,6 @@ state=$?
 
 test $state -le 3 || die "$0: '$@' yields invalid plugin return code $state"
 
-printf '%s\t%s\t%s\t%s\n' "$host" "$service" "$state" "$output" | send_nsca $send_nsca_args
+printf '%s\t%s\t%s\t%s\n' "$host" "$service" "$state" "$output" | send_nsca $send_nsca_args ${config_file+-c "$config_file"}
 
 # vim:set joinspaces noexpandtab textwidth=80:
-- 
2.43.0


From 9b4fcac63dad57d2b356239238d39b57683c1d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:04 +0000
Subject: [PATCH 42/49] fix: Refuse configuration values with unclosed
 quotation marks

---
 src/client/conf.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/client/conf.c b/src/client/conf.c
index 170796c..aaa3a88 100644
--- a/src/client/conf.c
+++ b/src/client/conf.c
@@ -252,6 +252,9 @@ parse_conf_file(const char * restrict path, conf * restrict cfg)
 			}
 		}
 		value[len] = '\0';
+		if (!done && quote_sign != 0)
+			die("%s:%lu: Missing closing quotation mark", path,
+			    line_number);
 		if (done && quote_sign == 0)
 			in--; /* This might be the start of a comment. */
 
-- 
2.43.0


From 671f8680cf741f92b0302a31d95f7a092010cac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:14 +0000
Subject: [PATCH 43/49] fix: Refuse empty, negative and huge numbers in
 send_nsca.cfg

---
 src/client/conf.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/client/conf.c b/src/client/conf.c
index aaa3a88..0497558 100644
--- a/src/client/conf.c
+++ b/src/client/conf.c
@@ -29,6 +29,7 @@
 # include <config.h>
 #endif
 
+#include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -278,9 +279,12 @@ parse_conf_file(const char * restrict path, conf * restrict cfg)
 			char *end;
 			long num = strtol(value, &end, 0);
 
-			if (*end != '\0')
+			if (*end != '\0' || end == value)
 				die("%s:%lu: Nonnumeric value assigned to `%s'",
 				    path, line_number, c->key);
+			if (num < 0 || num > INT_MAX)
+				die("%s:%lu: Value of `%s' is out of range",
+				    path, line_number, c->key);
 
 			conf_setint(cfg, c->key, num);
 		}
-- 
2.43.0


From f586cbd797dab61b4ca3f79913917790ef7f459c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:14 +0000
Subject: [PATCH 44/49] fix: Python: Don't crash if an object isn't initialized

---
 python/nscang.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/python/nscang.c b/python/nscang.c
index eec43d8..02ccd59 100644
--- a/python/nscang.c
+++ b/python/nscang.c
@@ -56,6 +56,11 @@ nscang_host_result(PyObject *self, PyObject *args, PyObject *kwds)
 	if (!PyArg_ParseTupleAndKeywords(args, kwds, "sI|sI:host_result",
 	    kwlist, &host, &rc, &output, &timeout))
 		return NULL;
+	if (client == NULL) {
+		PyErr_Format(PyExc_RuntimeError,
+		    "host_result: The object isn't initialized");
+		return NULL;
+	}
 
 	if (nscang_client_send_push(client, host, NULL, rc, output, timeout)) {
 		Py_INCREF(Py_None);
@@ -91,6 +96,11 @@ nscang_svc_result(PyObject *self, PyObject *args, PyObject *kwds)
 	if (!PyArg_ParseTupleAndKeywords(args, kwds, "ssI|sI:svc_result",
 	    kwlist, &host, &service, &rc, &output, &timeout))
 		return NULL;
+	if (client == NULL) {
+		PyErr_Format(PyExc_RuntimeError,
+		    "svc_result: The object isn't initialized");
+		return NULL;
+	}
 
 	if (nscang_client_send_push(client, host, service, rc, output, timeout)) {
 		Py_INCREF(Py_None);
@@ -148,6 +158,9 @@ NSCAngNotifyer_init(NSCAngNotifyer *self, PyObject *args, PyObject *kwds)
 		ciphers, identity, psk)) {
 		PyErr_Format(PyExc_RuntimeError, "nscang_client_init: %s",
 		    nscang_client_errstr(self->client, errstr, sizeof(errstr)));
+		nscang_client_free(self->client);
+		free(self->client);
+		self->client = NULL;
 		return -1;
 	}
 
-- 
2.43.0


From 91a5b1ad81160aa17f77be9a05dcb1c1d00cb2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:35 +0000
Subject: [PATCH 45/49] fix: Refuse log levels which are out of range

---
 src/server/conf.c    | 16 +++++++++++++++-
 src/server/nsca-ng.c |  4 ++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/server/conf.c b/src/server/conf.c
index 5773eb8..352e8f4 100644
--- a/src/server/conf.c
+++ b/src/server/conf.c
@@ -72,6 +72,7 @@ static int parse_service_pattern_cb(cfg_t * restrict, cfg_opt_t * restrict,
 static int parse_command_pattern_cb(cfg_t * restrict, cfg_opt_t * restrict,
                                     const char * restrict, void * restrict);
 static void free_auth_pattern_cb(void *);
+static int validate_log_level_cb(cfg_t *, cfg_opt_t *);
 static int validate_unsigned_int_cb(cfg_t *, cfg_opt_t *);
 static int validate_unsigned_float_cb(cfg_t *, cfg_opt_t *);
 static int include_cb(cfg_t * restrict, cfg_opt_t * restrict, int,
@@ -129,7 +130,7 @@ conf_parse(const char *path)
 	cfg_t *cfg = cfg_init(opts, CFGF_NONE); /* Aborts on error. */
 
 	cfg_set_validate_func(cfg, "log_level",
-	    validate_unsigned_int_cb);
+	    validate_log_level_cb);
 	cfg_set_validate_func(cfg, "max_command_size",
 	    validate_unsigned_int_cb);
 	cfg_set_validate_func(cfg, "max_queue_size",
@@ -332,6 +333,19 @@ free_auth_pattern_cb(void *value)
 /*
  * See <http://www.nongnu.org/confuse/tutorial-html/ar01s06.html>.
  */
+static int
+validate_log_level_cb(cfg_t * restrict cfg, cfg_opt_t * restrict opt)
+{
+	long int value = cfg_opt_getnint(opt, cfg_opt_size(opt) - 1);
+
+	if (value < LOG_LEVEL_CRITICAL || value > LOG_LEVEL_DEBUG) {
+		cfg_error(cfg, "`%s' must be between %d and %d", opt->name,
+		    LOG_LEVEL_CRITICAL, LOG_LEVEL_DEBUG);
+		return -1; /* Abort. */
+	}
+	return 0;
+}
+
 static int
 validate_unsigned_int_cb(cfg_t * restrict cfg, cfg_opt_t * restrict opt)
 {
diff --git a/src/server/nsca-ng.c b/src/server/nsca-ng.c
index f777594..123c821 100644
--- a/src/server/nsca-ng.c
+++ b/src/server/nsca-ng.c
@@ -289,6 +289,10 @@ get_options(int argc, char **argv)
 			usage(EXIT_SUCCESS);
 		case 'l':
 			opt->log_level = atoi(optarg);
+			if (opt->log_level < LOG_LEVEL_CRITICAL
+			    || opt->log_level > LOG_LEVEL_DEBUG)
+				die("-l argument must be between %d and %d",
+				    LOG_LEVEL_CRITICAL, LOG_LEVEL_DEBUG);
 			break;
 		case 'P':
 			if (opt->pid_file != NULL)
-- 
2.43.0


From d91f0c989eb778b4e70c9ba28f35999eb362f61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:27 +0000
Subject: [PATCH 46/49] fix: Don't let host and service patterns match other
 fields

The patterns specified via the "hosts" and "services" settings were also
matched against the fields following the host name and the service
description, so that (for example) the host pattern ".*\.example\.com"
authorized clients to submit results for any other host by mentioning
"x.example.com" within the plugin output.
---
 src/server/auth.c | 64 +++++++++++++++++++++++++++++++++++++++++++----
 src/server/conf.c |  4 +--
 2 files changed, 61 insertions(+), 7 deletions(-)

diff --git a/src/server/auth.c b/src/server/auth.c
index ee8c0a8..1ca174e 100644
--- a/src/server/auth.c
+++ b/src/server/auth.c
@@ -44,6 +44,7 @@
 #include "util.h"
 #include "wrappers.h"
 
+static char *leading_fields(const char *, unsigned int, unsigned int);
 static bool match(regex_t * restrict, const char * restrict);
 
 /*
@@ -96,7 +97,15 @@ check_psk(SSL *ssl, const char *identity, unsigned char *password,
 bool
 is_authorized(const char * restrict identity, const char * restrict command)
 {
-	const char *settings[] = { "hosts", "services", "commands" };
+	const struct {
+		const char *name;
+		unsigned int n_matched;  /* Fields to match (0 matches all). */
+		unsigned int n_required; /* Fields the command must have. */
+	} settings[] = {
+		{ "hosts", 2, 3 },
+		{ "services", 3, 5 },
+		{ "commands", 0, 0 }
+	};
 	cfg_t *auth;
 	char *newline;
 	size_t i;
@@ -126,15 +135,29 @@ is_authorized(const char * restrict identity, const char * restrict command)
 	command = skip_whitespace(command + 1);
 
 	for (i = 0; i < sizeof(settings) / sizeof(*settings); i++) {
-		cfg_opt_t *opt = cfg_getopt(auth, settings[i]);
+		cfg_opt_t *opt = cfg_getopt(auth, settings[i].name);
+		char *fields = NULL;
+		bool authorized = false;
 		unsigned int j;
 
-		for (j = 0; j < cfg_opt_size(opt); j++) {
+		/*
+		 * Don't let the patterns match anything but the host name and
+		 * service description, such as (parts of) the plugin output.
+		 */
+		if (settings[i].n_matched > 0
+		    && (fields = leading_fields(command, settings[i].n_matched,
+		    settings[i].n_required)) == NULL)
+			continue;
+
+		for (j = 0; j < cfg_opt_size(opt) && !authorized; j++) {
 			regex_t *pattern = cfg_opt_getnptr(opt, j);
 
-			if (match(pattern, command))
-				return true;
+			authorized = match(pattern,
+			    fields != NULL ? fields : command);
 		}
+		free(fields);
+		if (authorized)
+			return true;
 	}
 	return false;
 }
@@ -143,6 +166,37 @@ is_authorized(const char * restrict identity, const char * restrict command)
  * Static functions.
  */
 
+/*
+ * Return a copy of the first n semicolon-separated fields, or NULL if any of
+ * the required fields following them is missing (or empty).
+ */
+static char *
+leading_fields(const char *command, unsigned int n, unsigned int n_required)
+{
+	char *fields = NULL;
+	const char *p = command;
+	unsigned int i;
+
+	for (i = 1; i < n_required; i++) {
+		size_t len = strcspn(p, ";");
+
+		if (p[len] == '\0' || (i > n && len == 0))
+			break;
+		p += len + 1;
+		if (i == n) {
+			len = (size_t)(p - command) - 1;
+			fields = xmalloc(len + 1);
+			(void)memcpy(fields, command, len);
+			fields[len] = '\0';
+		}
+	}
+	if (i < n_required || *p == '\0') {
+		free(fields);
+		return NULL;
+	}
+	return fields;
+}
+
 static bool
 match(regex_t * restrict pattern, const char * restrict command)
 {
diff --git a/src/server/conf.c b/src/server/conf.c
index 352e8f4..b4eb2b7 100644
--- a/src/server/conf.c
+++ b/src/server/conf.c
@@ -251,7 +251,7 @@ host_to_command(const char *host_pattern)
 {
 	char *command_pattern;
 
-	xasprintf(&command_pattern, "PROCESS_HOST_CHECK_RESULT;(%s);.+",
+	xasprintf(&command_pattern, "PROCESS_HOST_CHECK_RESULT;(%s)",
 	    host_pattern);
 
 	return command_pattern;
@@ -272,7 +272,7 @@ service_to_command(const char *service_pattern)
 	service_part = pattern;
 
 	xasprintf(&command_pattern,
-	    "PROCESS_SERVICE_CHECK_RESULT;(%s);(%s);.+;.+",
+	    "PROCESS_SERVICE_CHECK_RESULT;(%s);(%s)",
 	    host_part, service_part);
 
 	free(pattern);
-- 
2.43.0


From 17640e59198ea7611715cb2b883105caaff5dd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:09 +0000
Subject: [PATCH 47/49] fix: compare characters as unsigned in strcasecmp and
 strncasecmp

The replacement functions passed negative values to tolower(3), and ordered
non-ASCII characters before all others.
---
 lib/strcasecmp.c  | 3 ++-
 lib/strncasecmp.c | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/strcasecmp.c b/lib/strcasecmp.c
index c630013..f82bbf2 100644
--- a/lib/strcasecmp.c
+++ b/lib/strcasecmp.c
@@ -39,7 +39,8 @@ strcasecmp(const char *s1, const char *s2)
 	size_t i = 0;
 	int c1, c2;
 
-	while ((c1 = tolower(s1[i])) == (c2 = tolower(s2[i]))) {
+	while ((c1 = tolower((unsigned char)s1[i]))
+	    == (c2 = tolower((unsigned char)s2[i]))) {
 		if (s1[i] == '\0')
 			return 0;
 		i++;
diff --git a/lib/strncasecmp.c b/lib/strncasecmp.c
index 6e560c4..0d8dd70 100644
--- a/lib/strncasecmp.c
+++ b/lib/strncasecmp.c
@@ -40,8 +40,8 @@ strncasecmp(const char *s1, const char *s2, size_t n)
 	size_t i;
 
 	for (i = 0; i < n; i++) {
-		int c1 = tolower(s1[i]);
-		int c2 = tolower(s2[i]);
+		int c1 = tolower((unsigned char)s1[i]);
+		int c2 = tolower((unsigned char)s2[i]);
 
 		if (c1 != c2)
 			return c1 - c2;
-- 
2.43.0


From 05652cc2be60e08511d28c908fda505e8d1d682c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:38 +0000
Subject: [PATCH 48/49] fix: Log the reasons of system errors reported by
 OpenSSL 3

ERR_reason_error_string() returns NULL for system errors, so that messages
such as "Cannot bind to *:5668: (null)" were logged.
---
 src/common/tls.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/common/tls.c b/src/common/tls.c
index 8bd78c5..f9d9044 100644
--- a/src/common/tls.c
+++ b/src/common/tls.c
@@ -996,9 +996,15 @@ log_tls_message(void log(const char *, ...), const char *format, ...)
 	xvasprintf(&message, format, ap);
 	va_end(ap);
 
-	if ((e = ERR_get_error()) != 0)
-		log("%s: %s", message, ERR_reason_error_string(e));
-	else
+	if ((e = ERR_get_error()) != 0) {
+		const char *reason = ERR_reason_error_string(e);
+
+		/* OpenSSL 3.x has no reason strings for system errors. */
+		if (reason == NULL)
+			reason = ERR_GET_LIB(e) == ERR_LIB_SYS ?
+			    strerror(ERR_GET_REASON(e)) : "Unknown error";
+		log("%s: %s", message, reason);
+	} else
 		log("%s", message);
 
 	free(message);
-- 
2.43.0


From b7986f3bea504b98e98591aba93c4b61bd30b7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:58 +0000
Subject: [PATCH 49/49] fix: Log the address of peers during the TLS handshake

---
 src/common/tls.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/tls.c b/src/common/tls.c
index f9d9044..94a2168 100644
--- a/src/common/tls.c
+++ b/src/common/tls.c
@@ -749,7 +749,7 @@ timeout_cb(EV_P_ ev_timer *w, int revents __attribute__((__unused__)))
 
 	if (diff > 0.0) {
 		debug("Resetting timeout watcher for %s, %.2f seconds left",
-		    tls->peer, (double)diff);
+		    tls->peer != NULL ? tls->peer : tls->addr, (double)diff);
 
 		ev_timer_set(w, diff, 0.0);
 		ev_timer_start(EV_A_ w);
-- 
2.43.0

