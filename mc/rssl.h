/* The real libssl on simulated sockets. */
#ifndef RSSL_H
#define RSSL_H
#include "sim.h"
#include <openssl/ssl.h>

typedef struct {                /* how the harness' TLS endpoint behaves */
	int minver, maxver;
	const char *ciphers, *suites, *groups;
	int no_psk;
	int resume;             /* 1 + index of the connection whose session to resume */
} rconf;
typedef struct {
	SSL *ssl;
	BIO *rb, *wb;
	sbuf rin;               /* arrived, not yet read by the code under test */
	sbuf pend;              /* still on the wire */
	sbuf rout;              /* written before the peer's engine started */
	int pend_held, eof, eof_after, hsfail_eof;
	int started, pumping, done, failed, got_cn, known, version, reused, n_psk, n_tickets;
	const char *cipher;
	char err[100], id[300]; unsigned char psk[300]; int psklen;
	item held[64]; int nheld;
	size_t total_in, total_out;
} rpeer;
extern rconf RC[MAXCONN];
extern rpeer RP[MAXCONN];
extern int rssl_like_nscang;    /* servers refuse resumed sessions */
extern const char *(*rssl_lookup)(const char *id);  /* passwords the server knows */
extern int rssl_cut;            /* flights may arrive in two segments */
extern const char *rssl_groups;     /* of the code under test */
extern const char *rssl_server_id, *rssl_server_psk;    /* when the code under test is the client */
void rssl_reset(void);
void rssl_arrive(conn *);
int rssl_held(conn *);
extern void (*rssl_refused)(conn *);    /* the client's handshake was refused */
#endif
