/*
 * The real libssl on the simulated sockets: the code under test uses OpenSSL
 * itself; the bytes it reads and writes travel through the simulated
 * connections to a real TLS endpoint held by the harness.
 */
#define _GNU_SOURCE
#include "rssl.h"
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <openssl/bio.h>
#include <openssl/err.h>
#include <openssl/ssl.h>

rconf RC[MAXCONN];
rpeer RP[MAXCONN];
int rssl_cut, rssl_like_nscang;
const char *(*rssl_lookup)(const char *);
void (*rssl_refused)(conn *);
const char *rssl_groups, *rssl_server_id, *rssl_server_psk;
static SSL_CTX *cctx, *sctx;
static SSL_SESSION *SESS[MAXCONN];

/* The error queue belongs to the code under test. */
typedef struct { unsigned long e[16]; char *d[16]; int n, err; } errsave;
static void
err_save(errsave *s)
{
	const char *data;
	int fl;

	s->err = errno;
	s->n = 0;
	while (s->n < 16 && (s->e[s->n] = ERR_get_error_all(NULL, NULL, NULL, &data, &fl)) != 0)
		s->d[s->n++] = data && (fl & ERR_TXT_STRING) ? strdup(data) : NULL;
	ERR_clear_error();
}
static void
err_restore(errsave *s)
{
	int i;

	ERR_clear_error();
	for (i = 0; i < s->n; i++) {
		ERR_new();
		ERR_set_debug("", 0, "");
		ERR_set_error(ERR_GET_LIB(s->e[i]), ERR_GET_REASON(s->e[i]), s->d[i] ? "%s" : NULL, s->d[i]);
		free(s->d[i]);
	}
	errno = s->err;
}

static unsigned
cli_psk(SSL *ssl, const char *hint, char *id, unsigned max, unsigned char *psk, unsigned maxpsk)
{
	conn *c = SSL_get_app_data(ssl);
	rpeer *p = &RP[c->index];

	(void)hint;
	if (RC[c->index].no_psk)
		return 0;
	if (strlen(p->id) + 1 > max || (unsigned)p->psklen > maxpsk)
		return 0;
	strcpy(id, p->id);
	memcpy(psk, p->psk, (size_t)p->psklen);
	return (unsigned)p->psklen;
}
static unsigned
srv_psk(SSL *ssl, const char *id, unsigned char *psk, unsigned max)
{
	conn *c = SSL_get_app_data(ssl);
	const char *pw;

	snprintf(c->id, sizeof(c->id), "%s", id);
	RP[c->index].n_psk++;
	RP[c->index].known = 0;
	pw = rssl_lookup ? rssl_lookup(id) : strcmp(id, rssl_server_id) ? NULL : rssl_server_psk;
	if (pw == NULL || strlen(pw) > max)
		return 0;
	memcpy(psk, pw, strlen(pw));
	RP[c->index].known = 1;
	return (unsigned)strlen(pw);
}
static int
new_session(SSL *ssl, SSL_SESSION *s)
{
	conn *c = SSL_get_app_data(ssl);

	SSL_SESSION_free(SESS[c->index]);
	SESS[c->index] = s;
	RP[c->index].n_tickets++;
	return 1;
}

void
rssl_reset(void)
{
	int i, j;

	for (i = 0; i < MAXCONN; i++) {
		if (RP[i].ssl)
			SSL_free(RP[i].ssl);
		sb_free(&RP[i].rin);
		sb_free(&RP[i].pend);
		sb_free(&RP[i].rout);
		for (j = 0; j < RP[i].nheld; j++)
			free(RP[i].held[j].p);
		SSL_SESSION_free(SESS[i]);
		SESS[i] = NULL;
	}
	memset(RP, 0, sizeof(RP));
	memset(RC, 0, sizeof(RC));
	rssl_cut = rssl_like_nscang = 0;
	rssl_lookup = NULL;
	rssl_groups = NULL;
	rssl_server_id = "tester";
	rssl_server_psk = "secret";
}

static void
start(conn *c)
{
	rpeer *p = &RP[c->index];
	rconf *k = &RC[c->index];

	if (cctx == NULL) {
		cctx = SSL_CTX_new(TLS_client_method());
		SSL_CTX_set_psk_client_callback(cctx, cli_psk);
		SSL_CTX_set_session_cache_mode(cctx, SSL_SESS_CACHE_CLIENT | SSL_SESS_CACHE_NO_INTERNAL);
		SSL_CTX_sess_set_new_cb(cctx, new_session);
		SSL_CTX_set_verify(cctx, SSL_VERIFY_NONE, NULL);
		sctx = SSL_CTX_new(TLS_server_method());
		SSL_CTX_set_psk_server_callback(sctx, srv_psk);
	}
	p->ssl = SSL_new(c->outgoing ? sctx : cctx);
	SSL_set_app_data(p->ssl, c);
	p->rb = BIO_new(BIO_s_mem());
	p->wb = BIO_new(BIO_s_mem());
	BIO_set_mem_eof_return(p->rb, -1);
	SSL_set_bio(p->ssl, p->rb, p->wb);
	if (k->maxver)
		SSL_set_max_proto_version(p->ssl, k->maxver);
	if (k->minver)
		SSL_set_min_proto_version(p->ssl, k->minver);
	if (k->ciphers && !SSL_set_cipher_list(p->ssl, k->ciphers))
		mc_fail("harness: bad cipher list %s", k->ciphers);
	else if (!k->ciphers)
		SSL_set_cipher_list(p->ssl, "PSK:@SECLEVEL=0");
	if (k->suites && !SSL_set_ciphersuites(p->ssl, k->suites))
		mc_fail("harness: bad cipher suites %s", k->suites);
	if (k->groups && !SSL_set1_groups_list(p->ssl, k->groups))
		mc_fail("harness: bad groups %s", k->groups);
	if (k->resume > 0 && SESS[k->resume - 1])
		SSL_set_session(p->ssl, SESS[k->resume - 1]);
	if (c->outgoing)
		SSL_set_accept_state(p->ssl);
	else
		SSL_set_connect_state(p->ssl);
	p->started = 1;
}

/* the system-wide OpenSSL configuration of the code under test */
SSL_CTX *
rssl_SSL_CTX_new(const SSL_METHOD *m)
{
	SSL_CTX *c = SSL_CTX_new(m);

	if (c && rssl_groups && !SSL_CTX_set1_groups_list(c, rssl_groups))
		mc_fail("harness: bad groups");
	return c;
}

/* What the peer produced becomes readable, possibly in two segments. */
static void
flush(conn *c)
{
	rpeer *p = &RP[c->index];
	char *b;
	long n = BIO_get_mem_data(p->wb, &b);
	size_t k;

	if (n > 0) {
		sb_add(&p->pend, b, (size_t)n);
		p->total_in += (size_t)n;
		(void)BIO_reset(p->wb);
	}
	if (p->pend.n == 0)
		return;
	k = p->pend.n;
	if (p->pend_held)
		return;
	if (rssl_cut && k > 1) {
		static const char *const l = "TLS flight arrives: whole/header only/first half/all but one byte";

		switch (mc_choose(4, l)) {
		case 1: k = k < 5 ? 1 : 5; break;
		case 2: k /= 2; break;
		case 3: k--; break;
		}
		if (k < p->pend.n)
			p->pend_held = 1;
	}
	sb_add(&p->rin, p->pend.p, k);
	sb_del(&p->pend, k);
}
void
rssl_arrive(conn *c)
{
	rpeer *p = &RP[c->index];

	p->pend_held = 0;
	sb_add(&p->rin, p->pend.p, p->pend.n);
	sb_del(&p->pend, p->pend.n);
	if (p->eof_after) {
		p->eof = p->eof_after;
		p->eof_after = 0;
	}
}
int rssl_held(conn *c) { return RP[c->index].pend_held && c->fd >= 0; }

static void
do_item(conn *c, item *it)
{
	rpeer *p = &RP[c->index];

	switch (it->kind) {
	case I_DATA:
		if (it->n && SSL_write(p->ssl, it->p, (int)it->n) <= 0)
			p->failed = 1;
		break;
	case I_CLOSE_NOTIFY:
		if (SSL_in_init(p->ssl))
			break;
		(void)SSL_shutdown(p->ssl);
		break;
	case I_KEYUPDATE:
		if (SSL_version(p->ssl) == TLS1_3_VERSION) {
			SSL_key_update(p->ssl, SSL_KEY_UPDATE_REQUESTED);
			(void)SSL_do_handshake(p->ssl);
		}
		break;
	default:
		break;
	}
}

/* Lets the peer's TLS engine work on everything it has received. */
static void
pump(conn *c)
{
	rpeer *p = &RP[c->index];
	char buf[20000];
	errsave es;
	int n;

	if (!p->started || p->pumping)
		return;
	p->pumping = 1;
	err_save(&es);
	if (!p->done && !p->failed) {
		n = SSL_do_handshake(p->ssl);
		if (n == 1) {
			p->done = 1;
			p->version = SSL_version(p->ssl);
			p->reused = SSL_session_reused(p->ssl);
			p->cipher = SSL_get_cipher_name(p->ssl);
			c->handshaken = 1;
			if (!c->outgoing)
				snprintf(c->id, sizeof(c->id), "%s", p->id);
			else {
				c->psklen = (int)strlen(rssl_server_psk);
				memcpy(c->psk, rssl_server_psk, (size_t)c->psklen);
			}
			mc_note("t=%.1f TLS handshake with peer %d complete: %s, %s%s", sim_now(), c->index,
			    SSL_get_version(p->ssl), p->cipher, p->reused ? ", resumed" : "");
			if (c->outgoing && !p->known && rssl_like_nscang) {
				mc_note("t=%.1f the server doesn't know whose session this is and closes the connection", sim_now());
				p->failed = 1;
				p->hsfail_eof = 1;
			}
		} else {
			int e = SSL_get_error(p->ssl, n);

			if (e != SSL_ERROR_WANT_READ && e != SSL_ERROR_WANT_WRITE) {
				p->failed = 1;
				snprintf(p->err, sizeof(p->err), "%s", ERR_reason_error_string(ERR_peek_error()) ? ERR_reason_error_string(ERR_peek_error()) : "?");
				mc_note("t=%.1f TLS handshake with peer %d failed: %s", sim_now(), c->index, p->err);
				/* it closes the connection */
				p->hsfail_eof = 1;
				if (c->outgoing && rssl_refused)
					rssl_refused(c);
			}
		}
	}
	if (p->done && !p->failed) {
		while (p->nheld > 0) {
			item it = p->held[0];

			memmove(&p->held[0], &p->held[1], sizeof(p->held[0]) * (size_t)--p->nheld);
			do_item(c, &it);
			free(it.p);
		}
		while ((n = SSL_read(p->ssl, buf, sizeof(buf))) > 0) {
			mc_note("t=%.1f to peer %d: %.*s", sim_now(), c->index, n > 60 ? 60 : n, buf);
			if (p->got_cn)
				mc_fail("application data after close_notify");
			sb_add(&c->out, buf, (size_t)n);
		}
		if (!p->got_cn && (SSL_get_shutdown(p->ssl) & SSL_RECEIVED_SHUTDOWN) && SSL_get_error(p->ssl, n) == SSL_ERROR_ZERO_RETURN) {
			p->got_cn = 1;
			c->peer_close_notify = 1;
			mc_note("t=%.1f close_notify to peer %d", sim_now(), c->index);
		} else if (SSL_get_error(p->ssl, n) == SSL_ERROR_SSL) {
			p->failed = 1;
			snprintf(p->err, sizeof(p->err), "%s", ERR_reason_error_string(ERR_peek_error()) ? ERR_reason_error_string(ERR_peek_error()) : "?");
			mc_note("t=%.1f the TLS connection of peer %d broke: %s", sim_now(), c->index, p->err);
		}
	}
	flush(c);
	if (p->hsfail_eof) {
		p->hsfail_eof = 0;
		if (p->pend.n)
			p->eof_after = 1;
		else
			p->eof = 1;
	}
	err_restore(&es);
	p->pumping = 0;
}

static void
deliver(conn *c, int k)
{
	rpeer *p = &RP[c->index];

	while (k-- > 0 && c->nq > 0) {
		item it = c->q[0];

		memmove(&c->q[0], &c->q[1], sizeof(c->q[0]) * (size_t)(c->nq - 1));
		c->nq--;
		c->consumed++;
		switch (it.kind) {
		case I_HELLO:
			if (!c->outgoing) {
				snprintf(p->id, sizeof(p->id), "%s", it.id);
				memcpy(p->psk, it.psk, sizeof(p->psk));
				p->psklen = it.psklen;
			}
			{
				errsave es;

				err_save(&es);
				start(c);
				BIO_write(p->rb, p->rout.p, (int)p->rout.n);
				sb_del(&p->rout, p->rout.n);
				err_restore(&es);
			}
			break;
		case I_FIN:
			rssl_arrive(c);
			p->eof = 1;
			c->peer_fin = 1;
			break;
		case I_RST:
			sb_del(&p->pend, p->pend.n);
			p->pend_held = 0;
			p->eof = 2;
			break;
		case I_GARBAGE:
			rssl_arrive(c);
			sb_add(&p->rin, it.n ? it.p : "GARBAGE GARBAGE\r\n\r\n", it.n ? it.n : 19);
			break;
		default:
			if (!p->started && it.kind == I_CLOSE_NOTIFY) {
				sb_add(&p->rin, "\x15\x03\x01\x00\x02\x01\x00", 7);
				break;
			}
			if (p->nheld >= 64)
				mc_fail("harness: too many records held back");
			p->held[p->nheld++] = it;
			it.p = NULL;
			break;
		}
		free(it.p);
	}
	pump(c);
}
static int
readable(conn *c)
{
	return RP[c->index].rin.n > 0 || RP[c->index].eof;
}
static int reset(conn *c) { return RP[c->index].eof == 2; }
static uint64_t
hash(conn *c)
{
	rpeer *p = &RP[c->index];

	return (uint64_t)p->rin.n + 1000003u * (uint64_t)p->pend.n + 7919u * (uint64_t)(p->done + 2 * p->failed + 4 * p->eof);
}
static const sim_rawtls ops = { deliver, readable, reset, hash, rssl_reset, rssl_arrive, rssl_held };
__attribute__((constructor)) static void install(void) { sim_tls = &ops; }

/* ----------------------------------------- the sockets, as libcrypto sees them */
static ssize_t
sock_read(conn *c, void *b, size_t n, int flags)
{
	rpeer *p = &RP[c->index];

	sim_progress("reading a socket");
	if (p->rin.n == 0) {
		if (p->eof == 2) { c->peer_rst = 1; if (c->sk_err++) return 0; errno = ECONNRESET; return -1; }
		if (p->eof) { c->peer_fin = 1; return 0; }
		sim_would_block(c, flags); errno = EAGAIN;
		return -1;
	}
	if (n > p->rin.n)
		n = p->rin.n;
	memcpy(b, p->rin.p, n);
	sb_del(&p->rin, n);
	return (ssize_t)n;
}
static ssize_t
sock_write(conn *c, const void *b, size_t n, int flags)
{
	rpeer *p = &RP[c->index];

	sim_progress("writing a socket");
	if (p->eof == 2) { sim_broken_pipe(c, flags); return -1; }
	if (c->blocked) { sim_would_block(c, flags); errno = EAGAIN; return -1; }
	if (W.k_write_choices && mc_choose(2, "send: ok/would block") == 1) {
		c->blocked = 1;
		sim_would_block(c, flags); errno = EAGAIN;
		return -1;
	}
	if (sim_peer_is_gone(c, p->eof)) { sim_broken_pipe(c, flags); return -1; }
	if (c->window == 0) { sim_would_block(c, flags); errno = EAGAIN; return -1; }
	if (c->window > 0 && (size_t)c->window < n)
		n = (size_t)c->window;
	if (c->window > 0)
		c->window -= (long)n;
	p->total_out += n;
	if (p->started) {
		errsave es;

		err_save(&es);
		BIO_write(p->rb, b, (int)n);
		err_restore(&es);
		pump(c);
	} else {
		sb_add(&p->rout, b, n);
		c->handshaken = 1; /* our hello reached the peer */
	}
	return (ssize_t)n;
}
static conn *
sock(int fd)
{
	simfd *f;

	if (!mc_in_exec || fd < SIM_FD0 || fd >= SIM_FD0 + SIM_NFD)
		return NULL;
	f = sim_fd(fd);
	return f && f->kind == K_SOCK ? f->conn : NULL;
}
ssize_t
read(int fd, void *b, size_t n)
{
	conn *c = sock(fd);
	return c ? sock_read(c, b, n, 0) : syscall(SYS_read, fd, b, n);
}
ssize_t
write(int fd, const void *b, size_t n)
{
	conn *c = sock(fd);
	return c ? sock_write(c, b, n, 0) : syscall(SYS_write, fd, b, n);
}
ssize_t
recv(int fd, void *b, size_t n, int fl)
{
	conn *c = sock(fd);
	return c ? sock_read(c, b, n, fl) : syscall(SYS_recvfrom, fd, b, n, fl, NULL, NULL);
}
ssize_t
send(int fd, const void *b, size_t n, int fl)
{
	conn *c = sock(fd);
	return c ? sock_write(c, b, n, fl) : syscall(SYS_sendto, fd, b, n, fl, NULL, 0);
}
