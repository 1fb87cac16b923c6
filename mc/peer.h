/* The server side of the protocol, as a partner for clients under test. */
#ifndef PEER_H
#define PEER_H
#include "sim.h"

enum { PB_OK, PB_FAIL, PB_BAIL, PB_OTHER, PB_WRONG, PB_CN, PB_FIN, PB_RST, PB_GARBAGE, PB_SILENT,
	PB_LONG, PB_NOTQUITE, PB_EMPTY, PB_VERSION, PB_BYTEWISE, PB_LF, PB_LAST, PB_TEXT, PB_DRIP };

typedef struct {
	int phase;                      /* 0 hello 1 MOIN 2 PUSH/QUIT 3 data 4 close 5 over */
	size_t seen, need;
	int misbehaved;                 /* deviated from the protocol before all was acknowledged */
	int bad_late;                   /* ... afterwards */
	int refused;
	int silent;
	int cn_sent, quit_acked, moin_acked;
	int bailed;                     /* the client sent BAIL */
	int said_fail;
	int nclose;
	double t_ready;
	char *cmd[40]; size_t cmdlen[40]; int acked[40]; int ncmd;
} peer;
extern peer PEER[MAXCONN];
extern int peer_impatient;              /* clients may send QUIT when they give up on a request */
extern int peer_faults;                 /* misbehaviour may be chosen */
extern int peer_script[64], peer_nscript;       /* forced behaviour of the n-th reaction */
extern int peer_reaction;               /* number of reactions so far */
extern double peer_delay, peer_delays[64];       /* in general; of the n-th reaction */
extern int peer_cut, peer_cut_together;
extern const char *peer_id, *peer_psk;  /* expected credentials */
extern int peer_cut, peer_cut_together;
extern const char *peer_trailing;       /* appended to FAIL/BAIL */
extern const char *peer_text;           /* sent by PB_TEXT */
extern double peer_drip;                /* pause between the octets of PB_DRIP */

void peer_reset(void);
int peer_events(envevent *, int max);
int peer_apply(const envevent *);
double peer_next_time(void);
void peer_check_transcript(int conn);   /* monitor */
#endif
