/* Scenario machinery for the server: scripted clients, reference model, oracles. */
#ifndef SRV_H
#define SRV_H
#include "sim.h"

typedef struct {
	const char *id, *pw;
	const char *cmds[10], *hosts[10], *svcs[10];
} user;
typedef struct {
	user u[6];
	const char *extra;              /* additional global settings, verbatim */
	const char *raw;                /* complete verbatim text instead */
	double timeout;                 /* <0: unset */
	long maxcmd, maxq;              /* <0: unset */
	int loglevel;
	int pidfile;
} sconf;

typedef enum { ST_CONN, ST_DATA, ST_CN, ST_FIN, ST_RST, ST_GARB, ST_KU, ST_PART, ST_WINDOW, ST_HELLO, ST_NOP } stkind;
typedef struct {
	stkind k;
	char *p; size_t n;
	int await;                      /* response lines needed before this step */
	int await_cn;                   /* wait for the server's close_notify / close */
	double at;                      /* not before this simulated time (relative) */
	int hard;                       /* ignores that the server closed */
	long arg;
} step;

#define MAXST 420
typedef struct {
	char id[300], psk[300];
	step st[MAXST]; int nst, pos;
	conn *c;
	sbuf sent;                      /* application bytes delivered so far */
	int aborted;                    /* FIN/RST/garbage injected */
	int cn_sent;
	int stalled;                    /* deliberately never finishes */
	int lines_planned;              /* expected responses so far, while building */
	size_t checked_out;
	double t_last;                  /* last step */
	double t_out;                   /* last output of the server */
	int no_transcript;
	int timed_out;                  /* was told so */
} client;

typedef struct { char *p; size_t n; int client, idx; int acked, seen, may_lose; double t; } command;

extern client CL[MAXCONN];
extern int NCL;
extern sconf SCONF;
extern int srv_may_refuse;          /* clients that may not get a TLS session */
extern int srv_lossy;               /* the scenario injects faults */
extern double srv_settle, srv_nagios_start;
extern size_t srv_may_overflow;  /* limit of the queue; Nagios is away at first */
extern int srv_expect_timeouts;
extern int srv_no_delivery;         /* delivery oracle off */
extern int srv_unordered;
extern int (*srv_more_events)(envevent *, int);
extern int (*srv_more_apply)(const envevent *);
extern void (*srv_more_step)(void);
extern void (*srv_on_quiescent)(void);
extern void (*srv_final)(void);
extern int srv_ran, srv_how;

void srv_reset(void);               /* sim_reset + defaults */
client *cl_new(const char *id, const char *psk);
void cl_conn(client *);
void cl_send(client *, int await_lines, const void *p, size_t n);
void cl_sends(client *, int await_lines, const char *fmt, ...);
void cl_step(client *, stkind k, int await_lines);
void cl_moin(client *);             /* waits for and expects the response */
void cl_push(client *, const char *cmd, size_t n);   /* PUSH + OKAY + data + response */
void cl_pushs(client *, const char *fmt, ...);
void cl_quit(client *);
void cl_close(client *);            /* close_notify + FIN after the server's close_notify */
void cl_split(client *, int at_step, const size_t *cuts, int ncuts);
void serve(void);
char *mkcmd(const char *prefix, char fill, size_t total, size_t *n);
int srv_authorized(const char *id, const char *cmd, size_t n, int *may);
extern const char *srv_argv[24];
extern int srv_argc;
void srv_write_conf(void);
extern char srv_conf_path[300];
extern command CMD[800]; extern int NCMD;
int srv_script_done(client *);
void srv_ref_update(void);
int srv_lines(client *);
#endif
