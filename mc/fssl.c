/*
 * A model of libssl on top of the simulated sockets.  It implements OpenSSL's
 * documented I/O semantics (one record per SSL_read, partial writes with the
 * same-arguments retry rule, WANT_READ/WANT_WRITE in either direction, the
 * per-thread error queue, close_notify handling), without any cryptography.
 * libcrypto (BIO, ERR, RAND) is the real one.  The model is validated against
 * the real libssl by running the same schedules on both (see DESIGN.md).
 */
#define _GNU_SOURCE
#include "sim.h"
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <openssl/bio.h>
#include <openssl/crypto.h>
#include <openssl/err.h>
#include <openssl/ssl.h>

typedef unsigned (*srv_cb)(SSL *, const char *, unsigned char *, unsigned);
typedef unsigned (*cli_cb)(SSL *, const char *, char *, unsigned, unsigned char *, unsigned);

typedef struct {
	int magic;
	int refs;
	int server;
	long mode;
	uint64_t options;
	srv_cb psk_srv;
	cli_cb psk_cli;
	void *app;
} fctx;

typedef struct {
	int magic;
	fctx *ctx;
	BIO *rbio, *wbio;
	void *ex[8];
	srv_cb psk_srv;
	cli_cb psk_cli;
	long mode;
	int server;                     /* 1 accept, 0 connect, -1 unset */
	int done;                       /* handshake complete */
	int hello_sent;
	int dead;
	int reused;
	int shut;                       /* SSL_SENT_SHUTDOWN | SSL_RECEIVED_SHUTDOWN */
	int alert_pending;
	int want;                       /* SSL_NOTHING / SSL_READING / SSL_WRITING / connect */
	/* pending write */
	char *wp; size_t wp_len, wp_left; const void *wp_buf; int wp_tot;
	char identity[300];
	unsigned char psk[600];
	unsigned psklen;
} fssl;

#define CTXM 0x43545831
#define SSLM 0x53534c31

static fctx *CT(const void *p)
{
	fctx *c = (fctx *)p;
	if (c == NULL || c->magic != CTXM) mc_fail("invalid SSL_CTX handed to libssl");
	return c;
}
static fssl *SS(const void *p)
{
	fssl *s = (fssl *)p;
	if (s == NULL || s->magic != SSLM) mc_fail("invalid SSL object handed to libssl");
	return s;
}

static int method_c, method_s, method_a;
const void *fssl_TLS_client_method(void) { return &method_c; }
const void *fssl_TLS_server_method(void) { return &method_s; }
const void *fssl_TLS_method(void) { return &method_a; }

void *
fssl_SSL_CTX_new(const void *m)
{
	fctx *c = calloc(1, sizeof(*c));
	(void)m;
	c->magic = CTXM;
	c->refs = 1;
	return c;
}
static void
ctx_unref(fctx *c)
{
	if (--c->refs == 0) {
		c->magic = 0;
		free(c);
	}
}
void fssl_SSL_CTX_free(void *p) { if (p) ctx_unref(CT(p)); }
int fssl_SSL_CTX_set_cipher_list(void *p, const char *s) { CT(p); return s && *s && strcmp(s, "BAD") ? 1 : 0; }
int fssl_SSL_CTX_set_ciphersuites(void *p, const char *s) { CT(p); (void)s; return 1; }
uint64_t fssl_SSL_CTX_set_options(void *p, uint64_t o) { return CT(p)->options |= o; }
uint64_t fssl_SSL_CTX_get_options(void *p) { return CT(p)->options; }
uint64_t fssl_SSL_CTX_clear_options(void *p, uint64_t o) { return CT(p)->options &= ~o; }
uint64_t fssl_SSL_set_options(void *p, uint64_t o) { (void)p; return o; }
void fssl_SSL_CTX_set_psk_server_callback(void *p, srv_cb cb) { CT(p)->psk_srv = cb; }
void fssl_SSL_CTX_set_psk_client_callback(void *p, cli_cb cb) { CT(p)->psk_cli = cb; }
void fssl_SSL_set_psk_client_callback(void *p, cli_cb cb) { SS(p)->psk_cli = cb; }
void fssl_SSL_set_psk_server_callback(void *p, srv_cb cb) { SS(p)->psk_srv = cb; }
long
fssl_SSL_CTX_ctrl(void *p, int cmd, long l, void *a)
{
	(void)a;
	if (cmd == SSL_CTRL_MODE) return CT(p)->mode |= l;
	if (cmd == SSL_CTRL_CLEAR_MODE) return CT(p)->mode &= ~l;
	return 1;
}
long
fssl_SSL_ctrl(void *p, int cmd, long l, void *a)
{
	(void)a;
	if (cmd == SSL_CTRL_MODE) return SS(p)->mode |= l;
	if (cmd == SSL_CTRL_CLEAR_MODE) return SS(p)->mode &= ~l;
	return 1;
}
int fssl_SSL_CTX_set_ex_data(void *p, int i, void *d) { (void)i; CT(p)->app = d; return 1; }
void *fssl_SSL_CTX_get_ex_data(void *p, int i) { (void)i; return CT(p)->app; }
void fssl_SSL_CTX_set_security_level(void *p, int l) { (void)p; (void)l; }

void *
fssl_SSL_new(void *ctx)
{
	fssl *s;
	if (W.k_accept_faults && mc_choose(2, "SSL_new: ok/out of memory") == 1) {
		ERR_raise(ERR_LIB_SSL, ERR_R_MALLOC_FAILURE);
		return NULL;
	}
	s = calloc(1, sizeof(*s));
	s->magic = SSLM;
	fssl_live++;
	s->ctx = CT(ctx);
	s->ctx->refs++;
	s->mode = s->ctx->mode;
	s->psk_srv = s->ctx->psk_srv;
	s->psk_cli = s->ctx->psk_cli;
	s->server = -1;
	return s;
}
void
fssl_SSL_free(void *p)
{
	fssl *s;
	if (p == NULL)
		return;
	s = SS(p);
	if (s->rbio)
		BIO_free_all(s->rbio);
	if (s->wbio && s->wbio != s->rbio)
		BIO_free_all(s->wbio);
	free(s->wp);
	fssl_live--;
	ctx_unref(s->ctx);
	s->magic = 0;
	free(s);
}
void
fssl_SSL_set_bio(void *p, BIO *r, BIO *w)
{
	fssl *s = SS(p);
	s->rbio = r;
	s->wbio = w;
}
BIO *fssl_SSL_get_rbio(const void *p) { return SS(p)->rbio; }
BIO *fssl_SSL_get_wbio(const void *p) { return SS(p)->wbio; }
int fssl_SSL_get_fd(const void *p) { return (int)BIO_get_fd(SS(p)->rbio, NULL); }
int fssl_SSL_set_fd(void *p, int fd)
{
	fssl *s = SS(p);
	s->rbio = s->wbio = BIO_new_socket(fd, BIO_NOCLOSE);
	return 1;
}
int
fssl_SSL_set_ex_data(void *p, int i, void *d)
{
	if (i < 0 || i >= 8) return 0;
	SS(p)->ex[i] = d;
	return 1;
}
void *fssl_SSL_get_ex_data(const void *p, int i) { return i < 0 || i >= 8 ? NULL : SS(p)->ex[i]; }
void fssl_SSL_set_accept_state(void *p) { SS(p)->server = 1; }
void fssl_SSL_set_connect_state(void *p) { SS(p)->server = 0; }
int fssl_SSL_is_init_finished(const void *p) { return SS(p)->done; }
int fssl_SSL_in_init(const void *p) { return !SS(p)->done; }
int fssl_SSL_get_shutdown(const void *p) { return SS(p)->shut; }
void fssl_SSL_set_shutdown(void *p, int m) { SS(p)->shut = m; }
const char *fssl_SSL_get_psk_identity(const void *p) { (void)p; return NULL; } /* as with TLS 1.3 */
const char *fssl_SSL_get_version(const void *p) { (void)p; return "TLSv1.3"; }
const void *fssl_SSL_get_current_cipher(const void *p) { (void)p; return NULL; }
const char *fssl_SSL_CIPHER_get_name(const void *p) { (void)p; return "model"; }
const char *fssl_SSL_state_string_long(const void *p) { (void)p; return "model"; }
void *fssl_SSL_get_SSL_CTX(const void *p) { return SS(p)->ctx; }
int fssl_SSL_want(const void *p) { return SS(p)->want; }
int fssl_SSL_session_reused(const void *p) { return SS(p)->reused; }
int fssl_SSL_is_server(const void *p) { return SS(p)->server == 1; }
int fssl_SSL_in_before(const void *p) { return !SS(p)->done && !SS(p)->hello_sent; }
int fssl_SSL_version(const void *p) { (void)p; return TLS1_3_VERSION; }
int fssl_SSL_CTX_set_session_id_context(void *p, const unsigned char *b, unsigned n) { (void)b; CT(p); return n <= 32; }
int fssl_SSL_CTX_set_num_tickets(void *p, size_t n) { (void)n; CT(p); return 1; }
int fssl_SSL_set_num_tickets(void *p, size_t n) { (void)n; SS(p); return 1; }
long fssl_SSL_CTX_set_timeout(void *p, long t) { CT(p); return t; }
void fssl_SSL_CTX_set_verify(void *p, int m, void *cb) { (void)m; (void)cb; CT(p); }
void fssl_SSL_set_verify(void *p, int m, void *cb) { (void)m; (void)cb; SS(p); }
int fssl_SSL_CTX_use_psk_identity_hint(void *p, const char *h) { (void)h; CT(p); return 1; }
int fssl_SSL_set_cipher_list(void *p, const char *s) { SS(p); return s && *s && strcmp(s, "BAD") ? 1 : 0; }
const char *fssl_SSL_alert_desc_string_long(int v) { (void)v; return "alert"; }
const char *fssl_SSL_alert_type_string_long(int v) { (void)v; return "type"; }

static conn *
conn_of(fssl *s)
{
	int fd;
	simfd *f;

	if (s->rbio == NULL)
		mc_fail("I/O on an SSL object without BIO");
	fd = (int)BIO_get_fd(s->rbio, NULL);
	f = fd < 0 ? NULL : sim_fd(fd);
	if (f == NULL || f->kind != K_SOCK)
		return NULL;
	sim_would_block(f->conn, 0);
	return f->conn;
}

static void
raise_err(int reason)
{
	ERR_raise(ERR_LIB_SSL, reason);
}

static int
fatal(fssl *s, int reason)
{
	s->dead = 1;
	s->want = SSL_NOTHING;
	raise_err(ERR_R_INTERNAL_ERROR); /* OpenSSL often leaves more than one */
	raise_err(reason);
	return -1;
}

static void
pop_item(conn *c)
{
	free(c->q[0].p);
	memmove(&c->q[0], &c->q[1], sizeof(c->q[0]) * (size_t)(c->nq - 1));
	c->nq--;
	c->nin--;
	c->consumed++;
}

int
fssl_SSL_get_error(const void *p, int ret)
{
	fssl *s = SS(p);
	unsigned long e;

	if (ret > 0)
		return SSL_ERROR_NONE;
	if ((e = ERR_peek_error()) != 0)
		return ERR_GET_LIB(e) == ERR_LIB_SYS ? SSL_ERROR_SYSCALL : SSL_ERROR_SSL;
	if (s->want == SSL_READING)
		return SSL_ERROR_WANT_READ;
	if (s->want == SSL_WRITING)
		return SSL_ERROR_WANT_WRITE;
	if (s->want == 100)
		return SSL_ERROR_WANT_CONNECT;
	if (s->shut & SSL_RECEIVED_SHUTDOWN)
		return SSL_ERROR_ZERO_RETURN;
	return SSL_ERROR_SYSCALL;
}

/* Transport errors common to reading; returns 1 if one applies. */
static int
read_transport_error(fssl *s, conn *c, int *ret)
{
	if (c == NULL) { errno = EBADF; s->want = SSL_NOTHING; *ret = -1; return 1; }
	switch (c->q[0].kind) {
	case I_FIN:
		/* stays at the head: end-of-file is permanent */
		c->peer_fin = 1;
		*ret = fatal(s, SSL_R_UNEXPECTED_EOF_WHILE_READING);
		s->shut |= SSL_RECEIVED_SHUTDOWN;
		return 1;
	case I_RST:
		c->peer_rst = 1;
		s->want = SSL_NOTHING;
		c->sk_err++;
		errno = ECONNRESET;
		*ret = -1;
		return 1;
	case I_GARBAGE:
		pop_item(c);
		*ret = fatal(s, SSL_R_WRONG_VERSION_NUMBER);
		return 1;
	default:
		return 0;
	}
}

/* Writes n "wire" bytes; 1 done, 0 would block, -1 error */
static int
wire_write(fssl *s, conn *c, size_t *left)
{
	if (c == NULL) { errno = EBADF; s->want = SSL_NOTHING; return -1; }
	{
		int i, gone = c->peer_rst, fin = c->peer_fin;

		for (i = 0; i < c->nin; i++)
			if (c->q[i].kind == I_RST)
				gone = 1;
			else if (c->q[i].kind == I_FIN)
				fin = 1;
		if (gone || (!c->blocked && sim_peer_is_gone(c, fin))) { s->want = SSL_NOTHING; sim_broken_pipe(c, 0); return -1; }
	}
	if (c->blocked) {
		s->want = SSL_WRITING;
		errno = EAGAIN;
		return 0;
	}
	if (W.k_write_choices && mc_choose(2, "send: ok/would block") == 1) {
		c->blocked = 1;
		s->want = SSL_WRITING;
		errno = EAGAIN;
		return 0;
	}
	if (c->window < 0) {
		*left = 0;
		return 1;
	}
	if ((size_t)c->window >= *left) {
		c->window -= (long)*left;
		*left = 0;
		return 1;
	}
	*left -= (size_t)c->window;
	c->window = 0;
	s->want = SSL_WRITING;
	errno = EAGAIN;
	return 0;
}

/* --------------------------------------------------------- handshakes */
static int handshake(fssl *s);

int fssl_SSL_accept(void *p) { fssl *s = SS(p); s->server = 1; return handshake(s); }
int fssl_SSL_connect(void *p) { fssl *s = SS(p); s->server = 0; return handshake(s); }
int fssl_SSL_do_handshake(void *p) { return handshake(SS(p)); }

static int
handshake(fssl *s)
{
	conn *c;
	int ret;

	errno = 0;
	sim_progress("the TLS handshake");
	s->want = SSL_NOTHING;
	if (s->done)
		return 1;
	if (s->dead) { raise_err(ERR_R_INTERNAL_ERROR); return -1; }
	if (s->server == 0 && !s->hello_sent) {
		char id[600];
		unsigned char psk[600];
		unsigned n;
		size_t left = 100;

		if (BIO_do_connect(s->wbio) <= 0) {
			if (BIO_should_retry(s->wbio))
				s->want = 100;
			else
				s->dead = 1;
			return -1;
		}
		c = conn_of(s);
		if (c == NULL) { errno = EBADF; return -1; }
		if (s->wp == NULL) {
			/* the callback is called once, when the hello is built */
			memset(id, 0, sizeof(id));
			memset(psk, 0, sizeof(psk));
			n = s->psk_cli ? s->psk_cli((SSL *)s, NULL, id, 256, psk, 512) : 0;
			if (n > 512 || strlen(id) > 256)
				mc_fail("the PSK client callback overran its buffers");
			if (n == 0)
				return fatal(s, SSL_R_PSK_IDENTITY_NOT_FOUND);
			snprintf(c->id, sizeof(c->id), "%s", id);
			memcpy(s->psk, psk, n);
			s->psklen = n;
			memcpy(c->psk, psk, n);
			c->psklen = (int)n;
			s->wp = calloc(1, 1);
		}
		ret = wire_write(s, c, &left);
		if (ret <= 0)
			return -1;
		free(s->wp);
		s->wp = NULL;
		s->hello_sent = 1;
		/* tell the scenario's server */
		{
			item it;
			memset(&it, 0, sizeof(it));
			sb_adds(&c->out, "");
			c->handshaken = 1; /* our hello reached the peer */
		}
	}
	c = conn_of(s);
	for (;;) {
		item *it;

		if (c == NULL) { errno = EBADF; return -1; }
		if (c->nin == 0) {
			s->want = SSL_READING;
			errno = EAGAIN;
			return -1;
		}
		if (read_transport_error(s, c, &ret))
			return ret;
		it = &c->q[0];
		if (it->kind == I_PARTIAL || it->kind == I_KEYUPDATE) {
			pop_item(c);
			continue;
		}
		if (it->kind == I_CLOSE_NOTIFY && s->server == 1) {
			pop_item(c);
			s->shut |= SSL_RECEIVED_SHUTDOWN;
			return -1;
		}
		if (it->kind != I_HELLO) {
			return fatal(s, SSL_R_UNEXPECTED_MESSAGE);
		}
		if (W.k_wantread && s->server == 1 && !s->hello_sent) {
			/* the server's flight may block */
			size_t left = 100;

			if (wire_write(s, c, &left) <= 0)
				return -1;
			s->hello_sent = 1;
		}
		if (s->server == 1) {
			unsigned char psk[512];
			unsigned n;

			if (fssl_offer[c->index][0].kind) {
				/* as OpenSSL's tls_parse_ctos_psk() */
				const psk_offer *o = fssl_offer[c->index];
				int i, ok = 0;

				for (i = 0; i < 4 && o[i].kind && !ok; i++) {
					memset(psk, 0, sizeof(psk));
					n = s->psk_srv ? s->psk_srv((SSL *)s, o[i].id, psk, sizeof(psk)) : 0;
					if (n > sizeof(psk))
						return fatal(s, ERR_R_INTERNAL_ERROR);
					if (n > 0) {
						if (o[i].kind == 2 || n != strlen(o[i].psk) || memcmp(psk, o[i].psk, n)) {
							pop_item(c);
							return fatal(s, SSL_R_BINDER_DOES_NOT_VERIFY);
						}
						ok = 1;
					} else if (o[i].kind == 2 && W.conns[o[i].of].handshaken) {
						ok = 2;
						s->reused = 1;
					}
				}
				if (!ok) {
					pop_item(c);
					return fatal(s, SSL_R_NO_SUITABLE_SIGNATURE_ALGORITHM);
				}
				mc_note("handshake with client %d: %s", c->index, ok == 2 ? "resumption" : o[i - 1].id);
				c->handshaken = 1;
				pop_item(c);
				s->done = 1;
				return 1;
			}
			memset(psk, 0, sizeof(psk));
			n = s->psk_srv ? s->psk_srv((SSL *)s, it->id, psk, sizeof(psk)) : 0;
			if (n > sizeof(psk))
				return fatal(s, ERR_R_INTERNAL_ERROR);
			if (n == 0) {
				pop_item(c);
				return fatal(s, SSL_R_PSK_IDENTITY_NOT_FOUND);
			}
			if (n != (unsigned)it->psklen || memcmp(psk, it->psk, n)) {
				pop_item(c);
				return fatal(s, SSL_R_DECRYPTION_FAILED_OR_BAD_RECORD_MAC);
			}
			snprintf(c->id, sizeof(c->id), "%s", it->id);
			c->handshaken = 1;
		}
		pop_item(c);
		s->done = 1;
		return 1;
	}
}

/* --------------------------------------------------------------- data */
static int
do_read(fssl *s, void *buf, int num, int peek)
{
	conn *c;
	int ret;

	errno = 0;
	sim_progress("SSL_read");
	s->want = SSL_NOTHING;
	if (!s->done) {
		ret = handshake(s);
		if (ret <= 0)
			return ret;
	}
	if (s->dead) { raise_err(ERR_R_INTERNAL_ERROR); return -1; }
	if (s->shut & SSL_RECEIVED_SHUTDOWN)
		return 0;
	c = conn_of(s);
	for (;;) {
		item *it;

		if (c == NULL) { errno = EBADF; return -1; }
		if (c->nin == 0) {
			s->want = SSL_READING;
			errno = EAGAIN;
			return -1;
		}
		if (read_transport_error(s, c, &ret))
			return ret;
		it = &c->q[0];
		if (W.k_wantread && it->kind == I_KEYUPDATE) {
			size_t left = 50; /* answering may block */

			if (wire_write(s, c, &left) <= 0)
				return -1;
		}
		if (it->kind == I_PARTIAL || it->kind == I_KEYUPDATE) {
			pop_item(c);
			continue;
		}
		if (it->kind == I_CLOSE_NOTIFY) {
			pop_item(c);
			s->shut |= SSL_RECEIVED_SHUTDOWN;
			return 0;
		}
		if (it->kind == I_DATA) {
			size_t n = it->n - it->off;

			if (n == 0) { pop_item(c); continue; }
			if (num <= 0)
				return 0;
			if (n > (size_t)num)
				n = (size_t)num;
			memcpy(buf, it->p + it->off, n);
			if (!peek) {
				it->off += n;
				if (it->off == it->n)
					pop_item(c);
			}
			return (int)n;
		}
		return fatal(s, SSL_R_UNEXPECTED_MESSAGE);
	}
}
int fssl_SSL_read(void *p, void *b, int n) { return do_read(SS(p), b, n, 0); }
int fssl_SSL_peek(void *p, void *b, int n) { return do_read(SS(p), b, n, 1); }
int
fssl_SSL_read_ex(void *p, void *b, size_t n, size_t *got)
{
	int r = do_read(SS(p), b, n > 0x7fffffff ? 0x7fffffff : (int)n, 0);
	*got = r > 0 ? (size_t)r : 0;
	return r > 0;
}
int
fssl_SSL_pending(const void *p)
{
	conn *c = conn_of(SS(p));
	if (c && c->nin > 0 && c->q[0].kind == I_DATA && c->q[0].off > 0)
		return (int)(c->q[0].n - c->q[0].off);
	return 0;
}
int fssl_SSL_has_pending(const void *p) { return fssl_SSL_pending(p) > 0; }

static int
do_write(fssl *s, const void *buf, int num)
{
	conn *c;
	int ret;

	errno = 0;
	sim_progress("SSL_write");
	s->want = SSL_NOTHING;
	if (!s->done) {
		ret = handshake(s);
		if (ret <= 0)
			return ret;
	}
	if (s->dead) { raise_err(ERR_R_INTERNAL_ERROR); return -1; }
	if (s->shut & SSL_SENT_SHUTDOWN) {
		raise_err(SSL_R_PROTOCOL_IS_SHUTDOWN);
		return -1;
	}
	if (num < 0) { raise_err(SSL_R_BAD_LENGTH); return -1; }
	if (num == 0)
		return 0; /* undefined by the documentation */
	c = conn_of(s);
	if (s->wp != NULL) {
		if (num < s->wp_tot || (buf != s->wp_buf
		    && !(s->mode & SSL_MODE_ACCEPT_MOVING_WRITE_BUFFER))) {
			raise_err(SSL_R_BAD_WRITE_RETRY);
			return -1;
		}
	} else {
		size_t n = (size_t)num > W.k_recmax ? W.k_recmax : (size_t)num;

		s->wp = malloc(n + 1);
		memcpy(s->wp, buf, n);
		s->wp_len = s->wp_left = n;
		s->wp_buf = buf;
		s->wp_tot = num;
	}
	for (;;) {
		size_t n = s->wp_len;

		ret = wire_write(s, c, &s->wp_left);
		if (ret < 0)
			return -1;
		if (ret == 0)
			return -1;
		sb_add(&c->out, s->wp, n);
		mc_note("t=%.1f to client %d: %.*s", sim_now(), c->index, (int)(n > 60 ? 60 : n), s->wp);
		free(s->wp);
		s->wp = NULL;
		if ((s->mode & SSL_MODE_ENABLE_PARTIAL_WRITE) || (int)n == num)
			return (int)n;
		/* without partial writes: go on with the rest (simplified) */
		buf = (const char *)buf + n;
		num -= (int)n;
		n = (size_t)num > W.k_recmax ? W.k_recmax : (size_t)num;
		s->wp = malloc(n + 1);
		memcpy(s->wp, buf, n);
		s->wp_len = s->wp_left = n;
		s->wp_buf = buf;
		s->wp_tot = num;
	}
}
int fssl_SSL_write(void *p, const void *b, int n) { return do_write(SS(p), b, n); }
int
fssl_SSL_write_ex(void *p, const void *b, size_t n, size_t *put)
{
	int r = do_write(SS(p), b, (int)n);
	*put = r > 0 ? (size_t)r : 0;
	return r > 0;
}

int
fssl_SSL_shutdown(void *p)
{
	fssl *s = SS(p);
	conn *c;
	size_t left = 30;
	int ret;

	errno = 0;
	sim_progress("SSL_shutdown");
	s->want = SSL_NOTHING;
	if (s->server == -1) { raise_err(SSL_R_UNINITIALIZED); return -1; }
	if (!s->done) { raise_err(SSL_R_SHUTDOWN_WHILE_IN_INIT); return -1; }
	c = conn_of(s);
	if (!(s->shut & SSL_SENT_SHUTDOWN)) {
		s->shut |= SSL_SENT_SHUTDOWN;
		s->alert_pending = 1;
		if (s->wp != NULL)
			return -1; /* data is still being written out */
		ret = wire_write(s, c, &left);
		if (ret <= 0)
			return -1;
		s->alert_pending = 0;
		c->peer_close_notify = 1;
		mc_note("t=%.1f close_notify to client %d", sim_now(), c->index);
	} else if (s->alert_pending) {
		if (s->wp != NULL)
			return -1;
		ret = wire_write(s, c, &left);
		if (ret <= 0)
			return -1;
		s->alert_pending = 0;
		c->peer_close_notify = 1;
	} else if (!(s->shut & SSL_RECEIVED_SHUTDOWN)) {
		for (;;) {
			item *it;

			if (c == NULL) { errno = EBADF; return -1; }
			if (c->nin == 0) {
				s->want = SSL_READING;
				errno = EAGAIN;
				return -1;
			}
			if (read_transport_error(s, c, &ret))
				return -1;
			it = &c->q[0];
			if (it->kind == I_CLOSE_NOTIFY) {
				pop_item(c);
				s->shut |= SSL_RECEIVED_SHUTDOWN;
				break;
			}
			if (it->kind == I_PARTIAL || it->kind == I_KEYUPDATE) {
				pop_item(c);
				continue;
			}
			pop_item(c);
			return fatal(s, SSL_R_APPLICATION_DATA_AFTER_CLOSE_NOTIFY);
		}
	}
	if (s->shut == (SSL_SENT_SHUTDOWN | SSL_RECEIVED_SHUTDOWN) && !s->alert_pending)
		return 1;
	return 0;
}
int
fssl_SSL_clear(void *p)
{
	fssl *s = SS(p);
	s->done = s->dead = s->shut = 0;
	return 1;
}
