/*
 * The simulated operating system the real nsca-ng code runs on inside the
 * explorer: descriptors, clock, epoll, signals, the command FIFO, the spool
 * directory, POSIX AIO, sockets.  Everything nondeterministic is an mc_choose.
 */
#ifndef SIM_H
#define SIM_H
#include <stddef.h>
#include <stdint.h>
#include <signal.h>
#include <sys/types.h>
#include "mc.h"

#define SIM_FD0 100
#define SIM_NFD 60
#define SIM_FIFO "/sim/nagios.cmd"
#define SIM_TMP "/sim/tmp"

typedef struct { char *p; size_t n, cap; } sbuf;
void sb_add(sbuf *, const void *, size_t);
void sb_adds(sbuf *, const char *);
void sb_addf(sbuf *, const char *, ...) __attribute__((format(printf, 2, 3)));
void sb_del(sbuf *, size_t);                        /* drop a prefix */
void sb_free(sbuf *);

typedef enum {
	K_FREE, K_EPOLL, K_EVENTFD, K_PIPER, K_PIPEW, K_LISTEN, K_SOCK, K_FIFO,
	K_FILE, K_STDIN, K_MISC
} fdkind;

struct conn;
struct simfile;
typedef struct {
	fdkind kind;
	struct { int fd; uint32_t events; uint64_t data; } *ep; int nep;   /* epoll */
	uint64_t counter;                           /* eventfd */
	int peer;                                   /* pipe */
	sbuf pbuf;
	struct conn *conn;
	struct simfile *file;
	int nonblock, cloexec;
	int wr_err;                                 /* FIFO writer saw reader vanish */
	int oflags;
	off_t off;
} simfd;

/* ---------------------------------------------------------------- network */
typedef enum { I_HELLO, I_DATA, I_CLOSE_NOTIFY, I_FIN, I_RST, I_GARBAGE, I_KEYUPDATE, I_PARTIAL } itemkind;
typedef struct { itemkind kind; char *p; size_t n, off; char id[300]; char psk[300]; int psklen; } item;

typedef struct conn {
	int used;
	int index;                                  /* client number */
	int fd;                                     /* local (code under test) side, -1 when closed */
	int pending_accept;
	int outgoing;                               /* the code under test connects to a peer */
	int accepted_ever;
	item q[96]; int nq, nin;                    /* nin: items delivered so far; q[0..nin) readable */
	int consumed;                               /* items fully consumed (for accounting) */
	sbuf out;                                   /* plaintext received by the peer */
	size_t out_seen;                            /* consumed by the scenario's peer logic */
	long window;                                /* bytes the peer side can still take; <0: unlimited */
	int blocked;                                /* a WANT_WRITE was returned; not writable until unblocked */
	int peer_close_notify;                      /* peer received our close_notify */
	int local_closed;                           /* code under test closed the socket */
	int peer_fin, peer_rst, sk_err, n_after_fin;
	int handshaken;
	int connect_state;                          /* outgoing: 0 idle 1 in progress 2 connected 3 refused */
	char id[300];                               /* identity the peer presented and was accepted with */
	char psk[600]; int psklen;                  /* key the code under test (as a client) uses */
	double t_last_activity;
	double t_open, t_closed;
	void *user;
} conn;

/* --------------------------------------------------------------- files */
typedef struct simfile {
	char path[128];
	sbuf data;
	int exists, open_count, n_writes;
	int mode;
	int announced;
	int failed;                                 /* an injected error hit it */
	int lock;                                   /* flock(2): 1 ours, 2 another process' */
	int owner;                                  /* effective user ID of its creator */
	int closed_ok;
	struct simfile *next;
} simfile;

typedef struct { char *p; size_t n; double t; } fifowrite;

typedef struct {
	void *cb; int fd; const void *buf; size_t n; int state; /* 0 in progress, 1 done */
	int err; ssize_t ret; int signo; void *sival; int notify; off_t off; int active;
} aioreq;

#define MAXCONN 8
typedef struct world {
	simfd fds[SIM_NFD];
	int nopen, max_open;
	int64_t mono, real;                         /* ns */
	conn conns[MAXCONN]; int nconns;
	int listen_fd;
	/* FIFO */
	int fifo_exists, fifo_is_fifo, fifo_reader, fifo_cap;
	size_t fifo_used;                           /* unread bytes in the pipe */
	fifowrite *fw; int nfw;
	size_t fifo_total;
	int fifo_opens, fifo_open_fails;
	int fifo_ever_epipe;
	simfile *files; int nfiles;
	aioreq aio[16]; int naio;
	/* signals */
	struct sigaction sa[72];
	int sa_set[72];
	/* process */
	void (*atexit_fns[64])(void); int n_atexit;
	int exited, exit_code, exec_called, returned;
	int ssl_calls_since_wait, any_calls_since_wait;
	int epoll_waits, time_advances, idle_wakeups;
	int stdin_eof, stdin_nonblock; sbuf stdin_avail; sbuf stdin_rest;
	int stdin_active, stdin_is_file, k_stdin_error;
	char gai_host[300], gai_serv[100]; int gai_calls;
	sbuf log;                                   /* captured stderr + syslog */
	sbuf out;                                   /* captured stdout */
	int terminating;                            /* SIGTERM has been raised */
	uint32_t rng;
	double t_enter_wait;
	int daemonized, daemon_fail;
	char exec_path[256];
	/* the process, if pm is set */
	int pm, uid, euid, suid, gid, egid, sgid, groups[8], ngroups, pid, k_priv_faults, n_priv_faults;
	char root[200], cwd[200];
	/* start-up */
	int k_all_paths;                            /* all paths but the configuration's are simulated */
	int k_bind_faults, k_pid_faults, k_open_faults;
	int n_faults, n_unlink_faults;                               /* injected so far (start-up faults only) */
	const char *fifo_path, *tmp_path;
	int tmp_errno;                              /* access(2) to tmp_path fails */
	char bound[100]; int nbinds, nlistens, reuseaddr;
	int sd_fds, sd_closed; simfd sd_fd;         /* socket activation: descriptor 3 */
	sbuf notify;                                /* "<time> <message>\n" */
	int nnotify; double notify_t[3000];
	int detached, std_closed, inherited, exec_left;     /* standard descriptors, descriptor 7 */
	int quit_sig;                               /* ends the execution */
	int openlogs, closelogs, syslog_bad;
	sbuf err, sys;                              /* standard error only, syslog only ("<prio>text\n") */
	sbuf exec_args;                             /* "arg\n" */
	int exec_cloexec3;
	int mkstemp_n;
	/* knobs */
	double k_suspend; int k_fifo_faults, k_file_faults, k_aio_faults, k_write_choices, k_sub_delivery, k_accept_faults, k_wantread;
	int k_time_is_event;
	int k_max_steps, k_max_advances;
	int k_ready_first;          /* always deliver readiness before new events */
	int k_aio_immediate;        /* AIO completes right away by default */
	int k_stop_events;
	int k_epoll_eintr;
	int exec_ok;
	size_t k_recmax;
} world;

extern world W;

/* What a TLS 1.3 client offers: several pre-shared keys, session tickets (fssl.c only) */
typedef struct { int kind; /* 0 none 1 external 2 ticket */ const char *id, *psk; int of; } psk_offer;
extern psk_offer fssl_offer[MAXCONN][4];

/* A real TLS library below the code under test (rssl.c); NULL with the model. */
typedef struct {
	void (*deliver)(conn *, int);
	int (*readable)(conn *);
	int (*reset)(conn *);
	uint64_t (*hash)(conn *);
	void (*clear)(void);
	void (*arrive)(conn *);
	int (*held)(conn *);
} sim_rawtls;
extern const sim_rawtls *sim_tls;

void sim_reset(void);           /* fresh world for an execution */
void sim_cleanup(void);         /* free harness-side memory */

/* events of the environment; implemented by the scenario */
typedef struct { int kind; int a, b; const char *label; int cost; } envevent;
extern int (*sim_enabled)(envevent *ev, int max);   /* lists enabled events, most natural first */
extern void (*sim_apply)(const envevent *);
extern void (*sim_on_step)(void);                   /* monitor; called at each wait */
extern int (*sim_quiescent)(void);                  /* scenario finished? -> raise SIGTERM */
extern void (*sim_on_fifo_write)(const char *p, size_t n);
extern void (*sim_on_exec)(void);
extern void (*sim_on_stdio)(void);
extern void (*sim_on_resource)(const char *what, const char *path);
extern void (*sim_on_sleep)(void);
extern void (*sim_on_daemon)(void);
extern int sim_passwd_ngroups;

void sim_raise(int sig);
void sim_aio_complete(aioreq *, int err, ssize_t ret);
conn *sim_new_conn(void);
item *sim_push(conn *, itemkind);
item *sim_push_data(conn *, const void *, size_t);
void sim_deliver(conn *, int n);
simfile *sim_find_file(const char *path);
uint64_t sim_world_hash(void);
int sim_run_main(int (*mainf)(int, char **), int argc, char **argv); /* 0 returned, 1 exited, 2 exec */
int sim_sock_readable(conn *), sim_sock_writable(conn *);
void sim_progress(const char *what);
double sim_now(void);
void sim_hash_add(uint64_t v);
int sim_alloc_fd(fdkind k);
simfd *sim_fd(int fd);
void sim_would_block(struct conn *, int flags);
extern const char *sim_hostname;
int sim_close_conn_fd(int fd);
void sim_broken_pipe(conn *, int flags);
int sim_peer_is_gone(conn *, int fin);
extern long trk_bytes, trk_blocks;              /* live heap of the code under test */
extern int (*sim_connect_outcome)(conn *);
extern double (*sim_next_time)(void);              /* when the next scripted event may happen */
extern void (*sim_on_fault)(const void *, size_t);                 /* data was lost by an injected error */
extern int fssl_live, sim_auto_fault;
#endif
