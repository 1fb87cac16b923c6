#define _GNU_SOURCE
#include "sim.h"
#include <openssl/err.h>
#include <aio.h>
#include <arpa/inet.h>
#include <sys/file.h>
#include <errno.h>
#include <fcntl.h>
#include <getopt.h>
#include <limits.h>
#include <netdb.h>
#include <netinet/in.h>
#include <pwd.h>
#include <search.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/select.h>
#include <poll.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <syslog.h>
#include <time.h>
#include <unistd.h>

world W;
int (*sim_enabled)(envevent *, int);
void (*sim_apply)(const envevent *);
void (*sim_on_step)(void);
int (*sim_quiescent)(void);
void (*sim_on_fifo_write)(const char *, size_t);
void (*sim_on_exec)(void);
void (*sim_on_stdio)(void);
FILE *sim_stderr, *sim_stdout;
static jmp_buf exit_jmp;
static int in_main;
const sim_rawtls *sim_tls;
psk_offer fssl_offer[MAXCONN][4];
static uint64_t extra_hash;

/* ------------------------------------------------------------- buffers */
void
sb_add(sbuf *b, const void *p, size_t n)
{
	if (b->n + n + 1 > b->cap) {
		b->cap = (b->n + n + 1) * 2;
		b->p = realloc(b->p, b->cap);
	}
	if (n)
		memcpy(b->p + b->n, p, n);
	b->n += n;
	b->p[b->n] = '\0';
}
void sb_adds(sbuf *b, const char *s) { sb_add(b, s, strlen(s)); }
void
sb_addf(sbuf *b, const char *f, ...)
{
	char tmp[2048];
	va_list ap;
	int n;

	va_start(ap, f);
	n = vsnprintf(tmp, sizeof(tmp), f, ap);
	va_end(ap);
	if (n > (int)sizeof(tmp) - 1)
		n = sizeof(tmp) - 1;
	sb_add(b, tmp, (size_t)n);
}
void
sb_del(sbuf *b, size_t n)
{
	if (n >= b->n) {
		b->n = 0;
		if (b->p) b->p[0] = '\0';
		return;
	}
	memmove(b->p, b->p + n, b->n - n);
	b->n -= n;
	b->p[b->n] = '\0';
}
void sb_free(sbuf *b) { free(b->p); memset(b, 0, sizeof(*b)); }

/* ------------------------------------- heap blocks of the code under test */
long trk_bytes, trk_blocks;
int fssl_live;
int sim_auto_fault;
void (*sim_on_fault)(const void *, size_t);
double (*sim_next_time)(void);
int (*sim_connect_outcome)(conn *);
/* what was being stored (NULL: unknown) */
static void fault(const void *p, size_t n) { if (sim_on_fault) sim_on_fault(p, n); }
void (*sim_on_resource)(const char *, const char *);
void (*sim_on_sleep)(void);
void (*sim_on_daemon)(void);
static void resource(const char *w, const char *p) { if (sim_on_resource) sim_on_resource(w, p); }
#define TRKN (1u << 18)
static struct { void *p; size_t n; } trk[TRKN];
static unsigned trk_used;                       /* slots ever used in this execution */
static unsigned *trk_slots;
#define TOMB ((void *)1)

static unsigned trk_hash(const void *p) { return (unsigned)(((uintptr_t)p >> 4) * 0x9e3779b1u) & (TRKN - 1); }
static void
trk_add(void *p, size_t n)
{
	unsigned i = trk_hash(p);

	if (p == NULL)
		return;
	if (trk_slots == NULL)
		trk_slots = malloc(sizeof(*trk_slots) * TRKN);
	while (trk[i].p != NULL && trk[i].p != TOMB)
		i = (i + 1) & (TRKN - 1);
	if (trk[i].p == NULL) {
		if (trk_used > TRKN / 2)
			mc_fail("harness: too many allocations");
		trk_slots[trk_used++] = i;
	}
	trk[i].p = p;
	trk[i].n = n;
	trk_bytes += (long)n;
	trk_blocks++;
}
static void
trk_del(void *p)
{
	unsigned i = trk_hash(p);

	while (trk[i].p != NULL) {
		if (trk[i].p == p) {
			trk[i].p = TOMB;
			trk_bytes -= (long)trk[i].n;
			trk_blocks--;
			return;
		}
		i = (i + 1) & (TRKN - 1);
	}
}
static void
trk_reset(void)
{
	unsigned i;

	for (i = 0; i < trk_used; i++) {
		void *p = trk[trk_slots[i]].p;

		if (p != NULL && p != TOMB)
			free(p);
		trk[trk_slots[i]].p = NULL;
	}
	trk_used = 0;
	trk_bytes = trk_blocks = 0;
}
void *trk_malloc(size_t n) { void *p = malloc(n); trk_add(p, n); return p; }
void *trk_calloc(size_t a, size_t b) { void *p = calloc(a, b); trk_add(p, a * b); return p; }
void *
trk_realloc(void *o, size_t n)
{
	void *p;

	if (o) trk_del(o);
	p = realloc(o, n);
	trk_add(p, n);
	return p;
}
void trk_free(void *p) { if (p) trk_del(p); free(p); }
char *trk_strdup(const char *s) { char *p = strdup(s); trk_add(p, strlen(s) + 1); return p; }
char *trk_strndup(const char *s, size_t n) { char *p = strndup(s, n); trk_add(p, strlen(p) + 1); return p; }
int
trk_vasprintf(char **o, const char *f, va_list ap)
{
	int n = vasprintf(o, f, ap);

	if (n >= 0) trk_add(*o, (size_t)n + 1);
	return n;
}
int
trk_asprintf(char **o, const char *f, ...)
{
	va_list ap;
	int n;

	va_start(ap, f);
	n = trk_vasprintf(o, f, ap);
	va_end(ap);
	return n;
}

/* --------------------------------------------- snapshot of repo globals */
/* Writable static data of the code under test lives in these sections. */
extern char __start_repodata[] __attribute__((weak));
extern char __stop_repodata[] __attribute__((weak));
extern char __start_repobss[] __attribute__((weak));
extern char __stop_repobss[] __attribute__((weak));
static char *snap_data;

__attribute__((no_sanitize("address"))) static void
raw_copy(volatile char *d, const volatile char *s, size_t n)
{
	size_t i = 0;

	if (((uintptr_t)d % 8) == ((uintptr_t)s % 8)) {
		for (; i < n && ((uintptr_t)(d + i) % 8); i++) d[i] = s[i];
		for (; i + 8 <= n; i += 8)
			*(volatile uint64_t *)(d + i) = *(const volatile uint64_t *)(s + i);
	}
	for (; i < n; i++)
		d[i] = s[i];
}

static void
snapshot(void)
{
	size_t nd = (size_t)(__stop_repodata - __start_repodata);
	size_t nb = (size_t)(__stop_repobss - __start_repobss);

	if (snap_data == NULL) {
		snap_data = malloc(nd + nb + 16);
		raw_copy(snap_data, __start_repodata, nd);
		raw_copy(snap_data + nd, __start_repobss, nb);
	} else {
		raw_copy(__start_repodata, snap_data, nd);
		raw_copy(__start_repobss, snap_data + nd, nb);
	}
}

/* -------------------------------------------------------------- output */
static ssize_t
cookie_write(void *c, const char *b, size_t n)
{
	if (memmem(b, n, "(null)", 6) != NULL && (memmem(b, n, "[DEBUG]", 7) == NULL || memmem(b, n, "timeout", 7) != NULL))
		mc_fail("a message refers to nothing: %.*s", (int)(n > 300 ? 300 : n), b);
	if (W.detached || (W.std_closed & (c == &W.log ? 4 : 2)))
		return (ssize_t)n; /* nobody sees it */
	sb_add(c, b, n);
	if (c == &W.log)
		sb_add(&W.err, b, n);
	if (mc_replaying())
		mc_note("%s: %.*s", c == &W.log ? "log" : "stdout", (int)(n > 300 ? 300 : n), b);
	return (ssize_t)n;
}

static void
init_streams(void)
{
	cookie_io_functions_t io = { NULL, cookie_write, NULL, NULL };

	if (sim_stderr == NULL) {
		sim_stderr = fopencookie(&W.log, "w", io);
		setvbuf(sim_stderr, NULL, _IOLBF, 1024);
		sim_stdout = fopencookie(&W.out, "w", io);
		setvbuf(sim_stdout, NULL, _IOLBF, 1024);
	}
}

int sim_puts(const char *s) { sb_adds(&W.out, s); sb_adds(&W.out, "\n"); return 1; }
int
sim_printf(const char *f, ...)
{
	va_list ap; char b[4096]; int n;
	va_start(ap, f); n = vsnprintf(b, sizeof(b), f, ap); va_end(ap);
	sb_adds(&W.out, b);
	return n;
}
void sim_perror(const char *s) { sb_addf(&W.log, "%s: %s\n", s, strerror(errno)); sb_addf(&W.err, "%s: %s\n", s, strerror(errno)); }
void sim_openlog(const char *i, int o, int f) { (void)i; (void)o; (void)f; W.openlogs++; }
void sim_closelog(void) { W.closelogs++; }
void
sim_vsyslog(int p, const char *f, va_list ap)
{
	char b[2048];
	vsnprintf(b, sizeof(b), f, ap);
	if (strstr(b, "(null)") != NULL && p != LOG_DEBUG)
		mc_fail("a message refers to nothing: %.300s", b);
	sb_addf(&W.sys, "<%d>", p);
	sb_adds(&W.sys, b);
	sb_adds(&W.sys, "\n");
	if (mc_replaying())
		mc_note("syslog: <%d>%.300s", p, b);
	sb_adds(&W.log, "syslog: ");
	sb_adds(&W.log, b);
	sb_adds(&W.log, "\n");
}
void
sim_syslog(int p, const char *f, ...)
{
	va_list ap;
	va_start(ap, f); sim_vsyslog(p, f, ap); va_end(ap);
}

/* ------------------------------------------------------------ fd table */
simfd *
sim_fd(int fd)
{
	if (fd == 3 && W.sd_fds > 0 && mc_in_exec)
		return W.sd_fd.kind == K_FREE ? NULL : &W.sd_fd;
	if (fd < SIM_FD0 || fd >= SIM_FD0 + SIM_NFD)
		return NULL;
	if (W.fds[fd - SIM_FD0].kind == K_FREE)
		return NULL;
	return &W.fds[fd - SIM_FD0];
}

static simfd stdin_fd;

static simfd *
getfd(int fd)
{
	if (fd == 0 && W.stdin_active) {
		stdin_fd.kind = K_STDIN;
		return &stdin_fd;
	}
	return sim_fd(fd);
}

static int is_simfd(int fd) { return (fd >= SIM_FD0 && fd < SIM_FD0 + SIM_NFD) || (fd == 3 && W.sd_fds > 0 && mc_in_exec); }

int
sim_alloc_fd(fdkind k)
{
	int i;

	for (i = 0; i < SIM_NFD; i++)
		if (W.fds[i].kind == K_FREE) {
			memset(&W.fds[i], 0, sizeof(W.fds[i]));
			W.fds[i].kind = k;
			W.fds[i].peer = -1;
			if (++W.nopen > W.max_open)
				W.max_open = W.nopen;
			return SIM_FD0 + i;
		}
	mc_fail("descriptor leak: more than %d simulated descriptors open", SIM_NFD);
}

static void aio_point(void);

static int
do_close(int fd)
{
	simfd *f = sim_fd(fd), *e;
	int i, j;

	if (f == NULL) {
		mc_fail("close() of descriptor %d which is not open", fd);
	}
	if (f->kind == K_SOCK && f->conn) {
		conn *c = f->conn;

		c->fd = -1;
		c->local_closed = 1;
		c->t_closed = sim_now();
		mc_note("t=%.1f socket of connection %d closed", sim_now(), c->index);
	}
	if (f->kind == K_LISTEN)
		W.listen_fd = -1;
	if (f->kind == K_FILE && f->file) {
		f->file->open_count--;
		if (f->file->lock == 1)
			f->file->lock = 0;
	}
	if (fd == 3)
		W.sd_closed++;
	free(f->ep);
	sb_free(&f->pbuf);
	for (i = 0; i < SIM_NFD; i++) {
		e = &W.fds[i];
		if (e->kind != K_EPOLL)
			continue;
		for (j = 0; j < e->nep; j++)
			if (e->ep[j].fd == fd) {
				e->ep[j] = e->ep[--e->nep];
				j--;
			}
	}
	memset(f, 0, sizeof(*f));
	W.nopen--;
	return 0;
}

int
sim_close(int fd)
{
	simfd *f;

	aio_point();
	if (fd == 7 && W.inherited) {
		W.inherited = 0;
		return 0;
	}
	if (!is_simfd(fd)) {
		if (fd >= 0 && fd <= 2) {
			W.std_closed |= 1 << fd;
			return 0; /* keep the harness' own stdio */
		}
		return close(fd);
	}
	f = sim_fd(fd);
	if (f == NULL) {
		/* closing all descriptors blindly is fine before start-up */
		if (W.nopen == 0) {
			errno = EBADF;
			return -1;
		}
		mc_fail("close() of descriptor %d which is not open", fd);
	}
	if (f->kind == K_FILE && (W.k_file_faults || sim_auto_fault == 5) && f->file) {
		int c = sim_auto_fault == 5 ? 1 : mc_choose(2, "close(spool file): ok/EIO");

		if (c == 1) {
			f->file->failed = 1;
			fault(f->file->data.p ? f->file->data.p : "", f->file->data.n);
			do_close(fd);
			errno = EIO;
			return -1;
		}
	}
	if (f->kind == K_FILE && f->file) {
		f->file->closed_ok = 1;
		mc_note("closed %s (%zu bytes)", f->file->path, f->file->data.n);
	}
	return do_close(fd);
}

void
sim_closefrom(int fd)
{
	int i;

	if (fd <= 7)
		W.inherited = 0;
	for (i = fd; i < 3; i++)
		W.std_closed |= 1 << i;
	if (W.sd_fds > 0 && fd <= 3 && W.sd_fd.kind != K_FREE)
		do_close(3);
	for (i = fd < SIM_FD0 ? 0 : fd - SIM_FD0; i < SIM_NFD; i++)
		if (W.fds[i].kind != K_FREE)
			do_close(SIM_FD0 + i);
}

/* --------------------------------------------------------------- clock */
double sim_now(void) { return (double)W.mono / 1e9; }

int
sim_clock_gettime(clockid_t id, struct timespec *ts)
{
	int64_t t = id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE ? W.real : W.mono;

	ts->tv_sec = t / 1000000000;
	ts->tv_nsec = t % 1000000000;
	return 0;
}
int
sim_gettimeofday(struct timeval *tv, void *tz)
{
	(void)tz;
	tv->tv_sec = W.real / 1000000000;
	tv->tv_usec = (W.real % 1000000000) / 1000;
	return 0;
}
time_t
sim_time(time_t *t)
{
	time_t r = (time_t)(W.real / 1000000000);

	if (t) *t = r;
	return r;
}
static void advance(int64_t ns) { W.mono += ns; W.real += ns; }
int
sim_nanosleep(const struct timespec *ts, struct timespec *rem)
{
	(void)rem;
	advance(ts->tv_sec * 1000000000LL + ts->tv_nsec);
	if (sim_on_sleep)
		sim_on_sleep();
	return 0;
}
unsigned sim_sleep(unsigned s) { advance(s * 1000000000LL); return 0; }
int sim_usleep(useconds_t u) { advance(u * 1000LL); return 0; }

/* ------------------------------------------------------------- signals */
int
sim_sigaction(int sig, const struct sigaction *sa, struct sigaction *old)
{
	if (sig < 1 || sig > 71) { errno = EINVAL; return -1; }
	if (old) *old = W.sa[sig];
	if (sa) { W.sa[sig] = *sa; W.sa_set[sig] = 1; }
	return 0;
}
typedef void (*sh)(int);
sh
sim_signal(int sig, sh h)
{
	sh o = W.sa[sig].sa_handler;

	memset(&W.sa[sig], 0, sizeof(W.sa[sig]));
	W.sa[sig].sa_handler = h;
	W.sa_set[sig] = 1;
	return o;
}
int
sim_sigprocmask(int how, const sigset_t *s, sigset_t *o)
{
	(void)how; (void)s;
	if (o) sigemptyset(o);
	return 0;
}

void sim_raise(int);
static void
die_by_signal(int sig)
{
	W.exited = 2;
	W.exit_code = 128 + sig;
	mc_note("process killed by signal %d", sig);
	if (in_main)
		longjmp(exit_jmp, 3);
	mc_fail("the process was killed by signal %d", sig);
}

/* A socket whose peer is gone was written to.  The first failure is reported
 * as the pending error of the socket, later ones raise SIGPIPE. */
void
sim_broken_pipe(conn *c, int flags)
{
	if (c->sk_err++ == 0 && !c->peer_fin && c->n_after_fin == 0) {
		errno = ECONNRESET;
		return;
	}
	if (!(flags & MSG_NOSIGNAL) && (!W.sa_set[SIGPIPE] || W.sa[SIGPIPE].sa_handler != SIG_IGN))
		sim_raise(SIGPIPE);
	errno = EPIPE;
}
/* A peer which has closed the connection answers data with a reset. */
int
sim_peer_is_gone(conn *c, int fin)
{
	return fin && c->n_after_fin++ > 0;
}

void
sim_raise(int sig)
{
	if (!W.sa_set[sig] || W.sa[sig].sa_handler == SIG_DFL)
		die_by_signal(sig);
	else if (W.sa[sig].sa_handler != SIG_IGN) {
		if (W.sa[sig].sa_flags & SA_SIGINFO) {
			siginfo_t si;

			memset(&si, 0, sizeof(si));
			si.si_signo = sig;
			W.sa[sig].sa_sigaction(sig, &si, NULL);
		} else
			W.sa[sig].sa_handler(sig);
	}
}
int sim_kill(pid_t p, int s) { (void)p; if (s) sim_raise(s); return 0; }
int sim_raise_(int s) { sim_raise(s); return 0; }

/* ------------------------------------------------------------ processes */
int
sim_atexit(void (*f)(void))
{
	if (W.n_atexit >= 64)
		return -1;
	W.atexit_fns[W.n_atexit++] = f;
	return 0;
}
static void
run_atexit(void)
{
	while (W.n_atexit > 0)
		W.atexit_fns[--W.n_atexit]();
}
void
sim_exit(int code)
{
	if (W.exited)
		mc_fail("exit() called recursively");
	W.exited = 1;
	W.exit_code = code;
	mc_note("exit(%d)", code);
	run_atexit();
	longjmp(exit_jmp, 1);
}
void
sim__exit(int code)
{
	W.exited = 1;
	W.exit_code = code;
	longjmp(exit_jmp, 1);
}
void sim_abort(void) { mc_fail("abort() called"); }
void
sim___assert_fail(const char *e, const char *f, unsigned l, const char *fn)
{
	mc_fail("assertion failed: %s (%s:%u %s)", e, f, l, fn);
}
int
sim_execvp(const char *file, char *const argv[])
{
	int i;

	W.exec_args.n = 0;
	for (i = 0; argv[i]; i++)
		sb_addf(&W.exec_args, "%s\n", argv[i]);
	W.exec_left = 0;
	for (i = 0; i < SIM_NFD; i++)
		if ((W.fds[i].kind == K_SOCK || W.fds[i].kind == K_FIFO || W.fds[i].kind == K_FILE || W.fds[i].kind == K_LISTEN) && !W.fds[i].cloexec)
			W.exec_left++;
	W.exec_cloexec3 = W.sd_fds > 0 && (W.sd_fd.kind == K_FREE || W.sd_fd.cloexec);
	snprintf(W.exec_path, sizeof(W.exec_path), "%s", file);
	W.exec_called++;
	mc_note("execvp(%s) %s", file, W.exec_ok ? "succeeds" : "fails");
	if (sim_on_exec)
		sim_on_exec();
	if (W.exec_ok) {
		W.exited = 3;
		longjmp(exit_jmp, 2);
	}
	errno = ENOENT;
	return -1;
}
int
sim_daemon(int nochdir, int noclose)
{
	if (W.daemon_fail) { errno = ENOMEM; W.n_faults++; return -1; }
	W.daemonized++;
	if (!nochdir)
		strcpy(W.cwd, "/");
	if (!noclose)
		W.detached = 1;
	if (sim_on_daemon)
		sim_on_daemon();
	W.pid++;
	return 0;
}
pid_t sim_getpid(void) { return W.pid; }
pid_t sim_getppid(void) { return 1; }
pid_t sim_setsid(void) { return W.pid; }
mode_t sim_umask(mode_t m) { static mode_t o = 022; mode_t r = o; o = m; return r; }
pid_t sim_fork(void) { errno = ENOSYS; return -1; }
pid_t sim_waitpid(pid_t p, int *s, int o) { (void)p; (void)s; (void)o; errno = ECHILD; return -1; }

/* systemd */
int
sim_sd_listen_fds(int u)
{
	int n = W.sd_fds;

	if (n > 0 && getenv("LISTEN_FDS") == NULL)
		n = 0;
	if (u) {
		unsetenv("LISTEN_FDS");
		unsetenv("LISTEN_PID");
		unsetenv("LISTEN_FDNAMES");
	}
	if (n > 0)
		W.sd_fd.cloexec = 1; /* as documented */
	return n;
}
int
sim_sd_notify(int u, const char *s)
{
	if (getenv("NOTIFY_SOCKET") == NULL)
		return 0;
	if (u)
		unsetenv("NOTIFY_SOCKET");
	sb_addf(&W.notify, "%s\n", s);
	if (W.nnotify < 3000)
		W.notify_t[W.nnotify++] = sim_now();
	mc_note("t=%.1f sd_notify(%s)", sim_now(), s);
	resource("notify", s);
	return 1;
}

/* users and groups */
static int
priv_fault(const char *what)
{
	if (W.k_priv_faults && mc_choose(2, what) == 1) {
		mc_note("%s fails", what);
		W.n_priv_faults++;
		return 1;
	}
	return 0;
}
struct passwd *
sim_getpwnam(const char *n)
{
	static struct passwd pw;
	static char name[64], dir[] = "/", sh[] = "/bin/false";

	if (!W.pm)
		return getpwnam(n);
	if (W.k_priv_faults) {
		int c = mc_choose(2, "getpwnam: ok/EMFILE");

		if (c == 1) { W.n_priv_faults++; errno = EMFILE; return NULL; }
	}
	if (W.root[0]) /* no user database in there */
		return NULL;
	memset(&pw, 0, sizeof(pw));
	snprintf(name, sizeof(name), "%s", n);
	pw.pw_name = name;
	pw.pw_dir = dir;
	pw.pw_shell = sh;
	if (!strcmp(n, "nagios")) { pw.pw_uid = 500; pw.pw_gid = 600; }
	else if (!strcmp(n, "other")) { pw.pw_uid = 501; pw.pw_gid = 602; }
	else if (!strcmp(n, "root")) { pw.pw_uid = 0; pw.pw_gid = 0; }
	else return NULL;
	return &pw;
}
int
sim_setgroups(size_t n, const gid_t *g)
{
	size_t i;

	if (W.pm && priv_fault("setgroups: ok/EPERM")) { errno = EPERM; return -1; }
	if (!W.pm || W.euid != 0) { errno = EPERM; return -1; }
	for (i = 0; i < n && i < 8; i++)
		W.groups[i] = (int)g[i];
	W.ngroups = (int)i;
	return 0;
}
int
sim_initgroups(const char *n, gid_t g)
{
	if (W.pm && priv_fault("initgroups: ok/EPERM")) { errno = EPERM; return -1; }
	if (!W.pm || W.euid != 0) { errno = EPERM; return -1; }
	W.groups[0] = (int)g;
	W.ngroups = 1;
	if (!W.root[0]) { /* no group database in there */
		if (!strcmp(n, "nagios")) W.groups[W.ngroups++] = 601;
		if (!strcmp(n, "other")) W.groups[W.ngroups++] = 603;
	}
	errno = ENOENT; /* success leaves rubbish in errno */
	return 0;
}
int
sim_chroot(const char *p)
{
	if (W.pm && priv_fault("chroot: ok/ENOENT")) { errno = ENOENT; return -1; }
	if (!W.pm || W.euid != 0) { errno = EPERM; return -1; }
	snprintf(W.root, sizeof(W.root), "%s", p);
	return 0;
}
int
sim_chdir(const char *p)
{
	if (W.pm && priv_fault("chdir: ok/EACCES")) { errno = EACCES; return -1; }
	snprintf(W.cwd, sizeof(W.cwd), "%s%s", W.root, p);
	return 0;
}
uid_t sim_getuid(void) { return W.pm ? (uid_t)W.uid : getuid(); }
uid_t sim_geteuid(void) { return W.pm ? (uid_t)W.euid : geteuid(); }
gid_t sim_getgid(void) { return W.pm ? (gid_t)W.gid : getgid(); }
gid_t sim_getegid(void) { return W.pm ? (gid_t)W.egid : getegid(); }
static int id_ok(int v, int r, int e, int s) { return v == -1 || W.euid == 0 || v == r || v == e || v == s; }
int
sim_setresuid(uid_t r, uid_t e, uid_t s)
{
	if (W.pm && priv_fault("setuid: ok/EAGAIN")) { errno = EAGAIN; return -1; }
	if (!W.pm || !id_ok((int)r, W.uid, W.euid, W.suid) || !id_ok((int)e, W.uid, W.euid, W.suid)
	    || !id_ok((int)s, W.uid, W.euid, W.suid)) { errno = EPERM; return -1; }
	if ((int)r != -1) W.uid = (int)r;
	if ((int)e != -1) W.euid = (int)e;
	if ((int)s != -1) W.suid = (int)s;
	return 0;
}
int
sim_setresgid(gid_t r, gid_t e, gid_t s)
{
	if (W.pm && priv_fault("setgid: ok/EPERM")) { errno = EPERM; return -1; }
	if (!W.pm || !id_ok((int)r, W.gid, W.egid, W.sgid) || !id_ok((int)e, W.gid, W.egid, W.sgid)
	    || !id_ok((int)s, W.gid, W.egid, W.sgid)) { errno = EPERM; return -1; }
	if ((int)r != -1) W.gid = (int)r;
	if ((int)e != -1) W.egid = (int)e;
	if ((int)s != -1) W.sgid = (int)s;
	return 0;
}
int
sim_setuid(uid_t u)
{
	if (W.pm && W.euid == 0)
		return sim_setresuid(u, u, u);
	if (W.pm && (int)u != W.uid && (int)u != W.suid) { errno = EPERM; return -1; }
	return sim_setresuid((uid_t)-1, u, (uid_t)-1);
}
int
sim_setgid(gid_t u)
{
	if (W.pm && W.euid == 0)
		return sim_setresgid(u, u, u);
	if (W.pm && (int)u != W.gid && (int)u != W.sgid) { errno = EPERM; return -1; }
	return sim_setresgid((gid_t)-1, u, (gid_t)-1);
}
int sim_seteuid(uid_t u) { return sim_setresuid((uid_t)-1, u, (uid_t)-1); }
int sim_setegid(gid_t u) { return sim_setresgid((gid_t)-1, u, (gid_t)-1); }
int sim_setreuid(uid_t r, uid_t e) { return sim_setresuid(r, e, e); }
int sim_setregid(gid_t r, gid_t e) { return sim_setresgid(r, e, e); }
const char *sim_hostname = "simhost";
int
sim_gethostname(char *b, size_t n)
{
	size_t l = strlen(sim_hostname) + 1;

	memcpy(b, sim_hostname, l < n ? l : n);
	if (l > n) { errno = ENAMETOOLONG; return -1; }
	return 0;
}

int
sim_run_main(int (*mainf)(int, char **), int argc, char **argv)
{
	int r;
	volatile int how;

	optind = 0;
	opterr = 0;
	in_main = 1;
	r = setjmp(exit_jmp);
	if (r == 0) {
		how = mainf(argc, argv);
		if (!W.exited) {
			W.exited = 1;
			W.returned = 1;
			W.exit_code = how;
			mc_note("main() returns %d", how);
			if (setjmp(exit_jmp) == 0)
				run_atexit();
		}
		r = 0;
	}
	in_main = 0;
	fflush(sim_stderr);
	fflush(sim_stdout);
	return r;
}

/* --------------------------------------------------------------- files */
simfile *
sim_find_file(const char *path)
{
	simfile *f;

	for (f = W.files; f; f = f->next)
		if (f->exists && !strcmp(f->path, path))
			return f;
	return NULL;
}
static int
is_sim_path(const char *p)
{
	const char *t = getenv("MC_TMP");

	if (strncmp(p, "/sim/", 5) == 0)
		return 1;
	if (!W.k_all_paths)
		return 0;
	if (t == NULL)
		t = "/tmp";
	return strncmp(p, t, strlen(t)) != 0 || strncmp(p + strlen(t), "/mc-", 4) != 0;
}

static simfile *
create_file(const char *path, int mode)
{
	simfile *f = calloc(1, sizeof(*f)), **pp;

	snprintf(f->path, sizeof(f->path), "%s", path);
	f->exists = 1;
	f->mode = mode;
	f->owner = W.euid;
	for (pp = &W.files; *pp; pp = &(*pp)->next)
		continue;
	*pp = f;
	W.nfiles++;
	return f;
}

static int
open_fifo(int flags)
{
	int fd, c;

	if (W.k_fifo_faults && !W.terminating) {
		c = mc_choose(4, "open(FIFO): normal/EINTR/EACCES/ENOENT");
		if (c == 1) { errno = EINTR; return -1; }
		if (c == 2) { W.fifo_open_fails++; errno = EACCES; return -1; }
		if (c == 3) { W.fifo_open_fails++; errno = ENOENT; return -1; }
	}
	if (!W.fifo_exists) { W.fifo_open_fails++; errno = ENOENT; return -1; }
	if (W.fifo_is_fifo && (flags & O_ACCMODE) == O_WRONLY && !W.fifo_reader) {
		W.fifo_open_fails++;
		if (!(flags & O_NONBLOCK))
			mc_fail("blocking open() of the command file while no process is reading it");
		errno = ENXIO;
		return -1;
	}
	if ((flags & O_ACCMODE) != O_WRONLY && (flags & O_ACCMODE) != O_RDWR)
		mc_fail("command file opened for reading");
	fd = sim_alloc_fd(W.fifo_is_fifo ? K_FIFO : K_FILE);
	sim_fd(fd)->oflags = flags;
	sim_fd(fd)->cloexec = (flags & O_CLOEXEC) != 0;
	sim_fd(fd)->nonblock = (flags & O_NONBLOCK) != 0;
	if (!W.fifo_is_fifo) {
		simfile *f = sim_find_file(W.fifo_path);

		if (f == NULL)
			f = create_file(W.fifo_path, 0644);
		sim_fd(fd)->file = f;
		f->open_count++;
		if (flags & O_TRUNC)
			mc_fail("the command file was truncated");
	}
	W.fifo_opens++;
	mc_note("t=%.1f FIFO opened", sim_now());
	return fd;
}

int
sim_open(const char *path, int flags, ...)
{
	simfile *f;
	int fd;
	va_list ap;
	int mode;

	va_start(ap, flags);
	mode = va_arg(ap, int);
	va_end(ap);
	aio_point();
	if (!is_sim_path(path))
		return open(path, flags, mode);
	resource("open", path);
	if (!strcmp(path, W.fifo_path))
		return open_fifo(flags);
	f = sim_find_file(path);
	if (W.k_open_faults && mc_choose(2, "open: ok/EACCES") == 1) { W.n_faults++; errno = EACCES; return -1; }
	if (f == NULL && !(flags & O_CREAT)) { errno = ENOENT; return -1; }
	if (f != NULL && (flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
	if (f == NULL)
		f = create_file(path, mode);
	if (flags & O_TRUNC)
		f->data.n = 0;
	fd = sim_alloc_fd(K_FILE);
	sim_fd(fd)->file = f;
	sim_fd(fd)->oflags = flags;
	sim_fd(fd)->cloexec = (flags & O_CLOEXEC) != 0;
	f->open_count++;
	return fd;
}
int sim_creat(const char *p, mode_t m) { return sim_open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }

int
sim_mkstemp(char *t)
{
	size_t n = strlen(t);
	simfile *f;
	int fd;

	aio_point();
	if (!is_sim_path(t))
		mc_fail("temporary file outside the configured directory: %s", t);
	if (n < 6 || strcmp(t + n - 6, "XXXXXX")) { errno = EINVAL; return -1; }
	resource("mkstemp", t);
	if (sim_auto_fault == 4 || (W.k_file_faults && mc_choose(2, "mkstemp: ok/ENOSPC") == 1)) {
		fault(NULL, 0);
		errno = ENOSPC;
		return -1;
	}
	snprintf(t + n - 6, 7, "%06d", ++W.mkstemp_n);
	f = create_file(t, 0600);
	fd = sim_alloc_fd(K_FILE);
	sim_fd(fd)->file = f;
	sim_fd(fd)->oflags = O_RDWR;
	f->open_count++;
	mc_note("created spool file %s", t);
	return fd;
}
int sim_mkostemp(char *t, int fl) { (void)fl; return sim_mkstemp(t); }

static int
is_tmp(const char *p)
{
	size_t n = strlen(W.tmp_path);

	return !strncmp(p, W.tmp_path, n) && (p[n] == '\0' || !strcmp(p + n, "/"));
}

static int
fill_stat(const char *path, simfile *f, simfd *fd, struct stat *sb)
{
	memset(sb, 0, sizeof(*sb));
	if ((fd && fd->kind == K_FIFO) || (path && !strcmp(path, W.fifo_path))) {
		if (path && !W.fifo_exists) { errno = ENOENT; return -1; }
		sb->st_mode = (W.fifo_is_fifo ? S_IFIFO : S_IFREG) | 0660;
		return 0;
	}
	if (path && is_tmp(path)) {
		sb->st_mode = S_IFDIR | 0755;
		return 0;
	}
	if (f == NULL && fd)
		f = fd->file;
	if (f) {
		sb->st_mode = S_IFREG | (mode_t)f->mode;
		sb->st_size = (off_t)f->data.n;
		sb->st_ino = (ino_t)(uintptr_t)f;
		sb->st_nlink = (nlink_t)f->exists;
		return 0;
	}
	if (fd) {
		sb->st_mode = S_IFSOCK | 0600;
		return 0;
	}
	errno = ENOENT;
	return -1;
}
int
sim_fstat(int fd, struct stat *sb)
{
	simfd *f = getfd(fd);

	if (!is_simfd(fd))
		return fstat(fd, sb);
	if (f == NULL) { errno = EBADF; return -1; }
	if (f->kind == K_FILE && W.k_pid_faults && mc_choose(2, "fstat: ok/EIO") == 1) { W.n_faults++; errno = EIO; return -1; }
	if (f->kind == K_FIFO && W.k_fifo_faults > 1 && mc_choose(2, "fstat(FIFO): ok/EIO") == 1) {
		errno = EIO;
		return -1;
	}
	return fill_stat(NULL, NULL, f, sb);
}
int
sim_stat(const char *p, struct stat *sb)
{
	if (!is_sim_path(p))
		return stat(p, sb);
	return fill_stat(p, sim_find_file(p), NULL, sb);
}
int
sim_lstat(const char *p, struct stat *sb)
{
	if (!is_sim_path(p))
		return lstat(p, sb);
	return sim_stat(p, sb);
}
int
sim_access(const char *p, int m)
{
	struct stat sb;

	if (!is_sim_path(p))
		return access(p, m);
	resource("access", p);
	if (is_tmp(p) && W.tmp_errno) { W.n_faults++; errno = W.tmp_errno; return -1; }
	return sim_stat(p, &sb);
}
int
sim_unlink(const char *p)
{
	simfile *f;

	if (!is_sim_path(p))
		mc_fail("unlink(%s)", p);
	f = sim_find_file(p);
	if (!f) { errno = ENOENT; return -1; }
	if (W.k_pid_faults && mc_choose(2, "unlink: ok/EACCES") == 1) { W.n_unlink_faults++; errno = EACCES; return -1; }
	f->exists = 0;
	mc_note("unlinked %s", p);
	return 0;
}
int
sim_rename(const char *a, const char *b)
{
	simfile *f, *g;

	if (!is_sim_path(a) || !is_sim_path(b))
		mc_fail("rename(%s, %s)", a, b);
	if (!(f = sim_find_file(a))) { errno = ENOENT; return -1; }
	if ((g = sim_find_file(b))) g->exists = 0;
	snprintf(f->path, sizeof(f->path), "%s", b);
	return 0;
}
int
sim_flock(int fd, int op)
{
	simfd *f = getfd(fd);

	if (!f || !f->file) { errno = EBADF; return -1; }
	if (W.k_pid_faults && mc_choose(2, "flock: ok/ENOLCK") == 1) { W.n_faults++; errno = ENOLCK; return -1; }
	if (op & LOCK_UN) {
		f->file->lock = 0;
		return 0;
	}
	if (f->file->lock == 2) {
		if (!(op & LOCK_NB))
			mc_fail("waiting for another process' lock");
		errno = EWOULDBLOCK;
		return -1;
	}
	f->file->lock = 1;
	return 0;
}
int
sim_ftruncate(int fd, off_t len)
{
	simfd *f = getfd(fd);

	if (f && f->file && W.k_pid_faults && mc_choose(2, "ftruncate: ok/EIO") == 1) { W.n_faults++; errno = EIO; return -1; }
	if (f && f->file) {
		if (f->file->lock == 2)
			mc_fail("%s was truncated although another process has locked it", f->file->path);
		if ((size_t)len < f->file->data.n)
			f->file->data.n = (size_t)len;
		return 0;
	}
	errno = EBADF;
	return -1;
}
int sim_fsync(int fd) { (void)fd; return 0; }
int sim_fdatasync(int fd) { (void)fd; return 0; }
int sim_fchmod(int fd, mode_t m) { simfd *f = getfd(fd); if (f && f->file) f->file->mode = (int)m; return 0; }
int sim_chmod(const char *p, mode_t m) { simfile *f = sim_find_file(p); if (f) f->mode = (int)m; return 0; }
off_t
sim_lseek(int fd, off_t o, int wh)
{
	simfd *f = getfd(fd);

	if (!f || !f->file) { errno = EBADF; return -1; }
	f->off = wh == SEEK_SET ? o : wh == SEEK_CUR ? f->off + o : (off_t)f->file->data.n + o;
	return f->off;
}

static void
file_put(simfile *f, off_t off, const void *p, size_t n)
{
	if ((size_t)off + n > f->data.n) {
		size_t old = f->data.n, want = (size_t)off + n;
		char z = 0;

		while (f->data.n < want)
			sb_add(&f->data, &z, 1);
		(void)old;
	}
	memcpy(f->data.p + off, p, n);
	f->n_writes++;
}

static ssize_t
fifo_write_(simfd *f, const char *p, size_t n)
{
	int c;
	size_t space;

	if (W.k_fifo_faults && !W.terminating) {
		c = mc_choose(3, "write(FIFO): normal/EINTR/EIO");
		if (c == 1) { errno = EINTR; return -1; }
		if (c == 2) { errno = EIO; return -1; }
	}
	if (!W.fifo_reader) {
		W.fifo_ever_epipe++;
		if (!W.sa_set[SIGPIPE] || W.sa[SIGPIPE].sa_handler == SIG_DFL)
			die_by_signal(SIGPIPE);
		errno = EPIPE;
		return -1;
	}
	if (n == 0)
		return 0;
	space = (size_t)W.fifo_cap - W.fifo_used;
	if (n > PIPE_BUF) {
		/* not atomic: what reaches the reader can be torn */
		if (sim_on_fifo_write)
			sim_on_fifo_write(p, n);
		mc_fail("write of %zu bytes to the command file, more than PIPE_BUF (not atomic)", n);
	}
	if (space < n) {
		if (!f->nonblock)
			mc_fail("blocking write to the full command file");
		errno = EAGAIN;
		return -1;
	}
	W.fifo_used += n;
	W.fifo_total += n;
	W.fw = realloc(W.fw, sizeof(*W.fw) * (size_t)(W.nfw + 1));
	W.fw[W.nfw].p = malloc(n + 1);
	memcpy(W.fw[W.nfw].p, p, n);
	W.fw[W.nfw].p[n] = '\0';
	W.fw[W.nfw].n = n;
	W.fw[W.nfw].t = sim_now();
	W.nfw++;
	mc_note("t=%.1f FIFO write %zu bytes: %.*s", sim_now(), n, (int)(n > 70 ? 70 : n), p);
	if (sim_on_fifo_write)
		sim_on_fifo_write(p, n);
	return (ssize_t)n;
}

ssize_t
sim_write(int fd, const void *p, size_t n)
{
	simfd *f = getfd(fd);

	aio_point();
	if (!is_simfd(fd))
		return write(fd, p, n);
	if (f == NULL) { errno = EBADF; mc_fail("write() to descriptor %d which is not open", fd); }
	switch (f->kind) {
	case K_EVENTFD: {
		uint64_t v;

		memcpy(&v, p, 8);
		f->counter += v;
		return 8;
	}
	case K_PIPEW:
		if (sim_fd(f->peer))
			sb_add(&sim_fd(f->peer)->pbuf, p, n);
		return (ssize_t)n;
	case K_FIFO:
		return fifo_write_(f, p, n);
	case K_FILE: {
		int c = 0;

		if (!strcmp(f->file->path, W.fifo_path))
			mc_fail("data written to a command file which is not a named pipe");
		if (W.k_file_faults)
			c = mc_choose(n > 1 ? 4 : 3, "write(spool file): ok/ENOSPC/EINTR/short");
		if (sim_auto_fault == 1 || sim_auto_fault == 3) c = 1;
		if (sim_auto_fault == 2 && n > 1) c = 3;
		if (c == 1) { f->file->failed = 1; fault(NULL, 0); errno = ENOSPC; return -1; }
		if (c == 2) { errno = EINTR; return -1; }
		if (c == 3) n /= 2;
		file_put(f->file, f->off, p, n);
		f->off += (off_t)n;
		return (ssize_t)n;
	}
	default:
		mc_fail("write() to descriptor %d of an unexpected kind %d", fd, f->kind);
	}
}
ssize_t
sim_pwrite(int fd, const void *p, size_t n, off_t off)
{
	simfd *f = getfd(fd);

	if (!f || !f->file) { errno = EBADF; return -1; }
	if (W.k_pid_faults) {
		int c = mc_choose(n > 1 ? 3 : 2, "pwrite: ok/ENOSPC/short");

		if (c) W.n_faults++;
		if (c == 1) { errno = ENOSPC; return -1; }
		if (c == 2) n /= 2;
	}
	if (f->file->lock == 2)
		mc_fail("%s was written although another process has locked it", f->file->path);
	file_put(f->file, off, p, n);
	return (ssize_t)n;
}
ssize_t
sim_writev(int fd, const struct iovec *iov, int n)
{
	sbuf b = { 0 };
	ssize_t r;
	int i;

	for (i = 0; i < n; i++)
		sb_add(&b, iov[i].iov_base, iov[i].iov_len);
	r = sim_write(fd, b.p, b.n);
	sb_free(&b);
	return r;
}

int
sim_vdprintf(int fd, const char *fmt, va_list ap)
{
	char b[4096];
	int n = vsnprintf(b, sizeof(b), fmt, ap);

	size_t len = (size_t)n < sizeof(b) ? (size_t)n : sizeof(b) - 1, done;
	ssize_t r;

	for (done = 0; done < len; done += (size_t)r)
		if ((r = sim_write(fd, b + done, len - done)) == -1)
			return -1;
	return (int)len;
}
int
sim_dprintf(int fd, const char *fmt, ...)
{
	va_list ap;
	int r;

	va_start(ap, fmt);
	r = sim_vdprintf(fd, fmt, ap);
	va_end(ap);
	return r;
}
ssize_t
sim_read(int fd, void *p, size_t n)
{
	simfd *f = getfd(fd);

	if (f == NULL && !is_simfd(fd))
		return read(fd, p, n);
	if (f == NULL) { errno = EBADF; return -1; }
	switch (f->kind) {
	case K_EVENTFD:
		if (f->counter == 0) { errno = EAGAIN; return -1; }
		memcpy(p, &f->counter, 8);
		f->counter = 0;
		return 8;
	case K_PIPER:
		if (f->pbuf.n == 0) { errno = EAGAIN; return -1; }
		if (n > f->pbuf.n) n = f->pbuf.n;
		memcpy(p, f->pbuf.p, n);
		sb_del(&f->pbuf, n);
		return (ssize_t)n;
	case K_STDIN:
		sim_progress("read(stdin)");
		if (W.k_stdin_error < 0 || (W.k_stdin_error && mc_choose(2, "read(stdin): ok/EIO") == 1)) { W.k_stdin_error = -1; errno = EIO; return -1; }
		if (W.stdin_avail.n == 0) {
			if (W.stdin_eof)
				return 0;
			if (!W.stdin_nonblock)
				mc_fail("blocking read from standard input");
			errno = EAGAIN;
			return -1;
		}
		if (W.k_file_faults && mc_choose(2, "read(stdin): ok/EINTR") == 1) { errno = EINTR; return -1; }
		if (n > W.stdin_avail.n) n = W.stdin_avail.n;
		memcpy(p, W.stdin_avail.p, n);
		sb_del(&W.stdin_avail, n);
		return (ssize_t)n;
	case K_FILE:
		if ((size_t)f->off >= f->file->data.n)
			return 0;
		if (n > f->file->data.n - (size_t)f->off) n = f->file->data.n - (size_t)f->off;
		memcpy(p, f->file->data.p + f->off, n);
		f->off += (off_t)n;
		return (ssize_t)n;
	default:
		mc_fail("read() from descriptor %d of an unexpected kind %d", fd, f->kind);
	}
}

int
sim_fcntl(int fd, int cmd, ...)
{
	simfd *f = getfd(fd);
	va_list ap;
	long arg;

	va_start(ap, cmd);
	arg = va_arg(ap, long);
	va_end(ap);
	if (f == NULL) {
		if (!is_simfd(fd))
			return fcntl(fd, cmd, arg);
		errno = EBADF;
		return -1;
	}
	switch (cmd) {
	case F_GETFL:
		if (f->kind == K_STDIN)
			return W.stdin_nonblock ? O_NONBLOCK : 0;
		return f->nonblock ? O_NONBLOCK : 0;
	case F_SETFL:
		if (f->kind == K_STDIN)
			W.stdin_nonblock = (arg & O_NONBLOCK) != 0;
		f->nonblock = (arg & O_NONBLOCK) != 0;
		return 0;
	case F_SETFD:
		f->cloexec = (int)arg & FD_CLOEXEC;
		return 0;
	case F_GETFD:
		return f->cloexec;
	}
	return 0;
}
int
sim_pipe2(int p[2], int fl)
{
	(void)fl;
	p[0] = sim_alloc_fd(K_PIPER);
	p[1] = sim_alloc_fd(K_PIPEW);
	sim_fd(p[0])->peer = p[1];
	sim_fd(p[1])->peer = p[0];
	return 0;
}
int sim_pipe(int p[2]) { return sim_pipe2(p, 0); }
int
sim_eventfd(unsigned v, int fl)
{
	int fd = sim_alloc_fd(K_EVENTFD);

	(void)fl;
	sim_fd(fd)->counter = v;
	return fd;
}
int sim_timerfd_create(int a, int b) { (void)a; (void)b; errno = ENOSYS; return -1; }
int sim_timerfd_settime(int a, int b, const void *c, void *d) { (void)a; (void)b; (void)c; (void)d; errno = EBADF; return -1; }
int sim_signalfd(int a, const sigset_t *b, int c) { (void)a; (void)b; (void)c; errno = ENOSYS; return -1; }
int sim_inotify_init1(int f) { (void)f; errno = ENOSYS; return -1; }
int sim_inotify_init(void) { errno = ENOSYS; return -1; }
long
sim_syscall(long n, long a, long b, long c, long d, long e, long f)
{
	if (n == SYS_clock_gettime)
		return sim_clock_gettime((clockid_t)a, (struct timespec *)b);
	(void)c; (void)d; (void)e; (void)f;
	errno = ENOSYS;
	return -1;
}

/* ----------------------------------------------------------------- AIO */
static void
aio_touch(aioreq *r, int err, ssize_t ret)
{
	/* glibc's helper thread stores the result inside the control block */
	struct aiocb *cb = r->cb;

	cb->__error_code = err;
	cb->__return_value = ret;
}

void
sim_aio_complete(aioreq *r, int err, ssize_t ret)
{
	simfd *f;
	struct aiocb *cb = r->cb;

	if (r->state)
		return;
	mc_note("AIO completes: err=%d ret=%zd", err, ret);
	f = sim_fd(cb->aio_fildes);
	if (ret > 0) {
		if (f == NULL || f->file == NULL)
			mc_fail("descriptor of an asynchronous write was closed before it completed");
		file_put(f->file, cb->aio_offset, (const void *)cb->aio_buf, (size_t)ret);
	}
	if (f && f->file && (err || (size_t)ret != cb->aio_nbytes)) {
		f->file->failed = 1;
		fault((const void *)cb->aio_buf, cb->aio_nbytes);
	}
	r->state = 1;
	r->err = err;
	r->ret = ret;
	aio_touch(r, err, ret);
	if (r->notify == SIGEV_SIGNAL) {
		int sig = r->signo;

		if (!W.sa_set[sig] || W.sa[sig].sa_handler == SIG_DFL)
			die_by_signal(sig);
		else if (W.sa[sig].sa_handler == SIG_IGN)
			return;
		else if (W.sa[sig].sa_flags & SA_SIGINFO) {
			siginfo_t si;

			memset(&si, 0, sizeof(si));
			si.si_signo = sig;
			si.si_code = SI_ASYNCIO;
			si.si_value.sival_ptr = r->sival;
			W.sa[sig].sa_sigaction(sig, &si, NULL);
		} else
			W.sa[sig].sa_handler(sig);
	}
}

/* While terminating, a request in flight may complete at any system call. */
static void
aio_point(void)
{
	int i;

	if (!W.terminating || !W.k_stop_events)
		return;
	for (i = 0; i < W.naio; i++)
		if (W.aio[i].active && !W.aio[i].state
		    && mc_choose(2, "AIO completes while stopping: no/yes") == 1)
			sim_aio_complete(&W.aio[i], 0, (ssize_t)W.aio[i].n);
}

void sim_aio_init(const struct aioinit *a) { (void)a; }

int
sim_aio_write(struct aiocb *cb)
{
	aioreq *r;
	int i;

	if (sim_auto_fault == 3 || (W.k_aio_faults && mc_choose(2, "aio_write: ok/EAGAIN") == 1)) {
		fault(NULL, 0);
		errno = EAGAIN;
		return -1;
	}
	/* a completed request whose control block is reused is gone */
	for (i = 0; i < W.naio; i++)
		if (W.aio[i].active && W.aio[i].cb == cb) {
			if (!W.aio[i].state)
				mc_fail("aio_write() reuses a control block which is still in use");
			W.aio[i].active = 0;
		}
	for (i = 0; i < W.naio && W.aio[i].active; i++)
		continue;
	if (i == 16)
		mc_fail("too many asynchronous requests");
	if (i == W.naio)
		W.naio++;
	r = &W.aio[i];
	memset(r, 0, sizeof(*r));
	r->active = 1;
	r->cb = cb;
	r->fd = cb->aio_fildes;
	r->buf = (const void *)cb->aio_buf;
	r->n = cb->aio_nbytes;
	r->notify = cb->aio_sigevent.sigev_notify;
	r->signo = cb->aio_sigevent.sigev_signo;
	r->sival = cb->aio_sigevent.sigev_value.sival_ptr;
	mc_note("aio_write of %zu bytes queued", r->n);
	return 0;
}
static aioreq *
find_aio(const void *cb)
{
	int i;

	for (i = 0; i < W.naio; i++)
		if (W.aio[i].active && W.aio[i].cb == cb)
			return &W.aio[i];
	return NULL;
}
int
sim_aio_error(const struct aiocb *cb)
{
	aioreq *r = find_aio(cb);

	if (r == NULL) return EINVAL;
	if (!r->state) return EINPROGRESS;
	return r->err;
}
ssize_t
sim_aio_return(struct aiocb *cb)
{
	aioreq *r = find_aio(cb);

	if (r == NULL) { errno = EINVAL; return -1; }
	if (!r->state) mc_fail("aio_return() called for a request which is still in progress");
	r->active = 0;
	return r->ret;
}
int
sim_aio_cancel(int fd, struct aiocb *cb)
{
	int i;

	(void)fd;
	for (i = 0; i < W.naio; i++)
		if (W.aio[i].active && !W.aio[i].state && (cb == NULL || W.aio[i].cb == cb)) {
			int c = W.k_stop_events ? mc_choose(2, "aio_cancel: not cancelled/cancelled") : 0;

			if (c == 0)
				return AIO_NOTCANCELED;
			sim_aio_complete(&W.aio[i], ECANCELED, -1);
			return AIO_CANCELED;
		}
	return AIO_ALLDONE;
}
int
sim_aio_suspend(const struct aiocb *const list[], int n, const struct timespec *to)
{
	int i;

	(void)to;
	for (i = 0; i < n; i++)
		if (list[i]) {
			aioreq *r = find_aio(list[i]);

			if (r && !r->state) {
				int c = W.k_stop_events ? mc_choose(3, "aio_suspend: completes/EINTR/completes with an error") : 0;

				if (c == 1) { errno = EINTR; return -1; }
				if (c == 2)
					sim_aio_complete(r, ENOSPC, -1);
				else
					sim_aio_complete(r, 0, (ssize_t)r->n);
				if (c == 0)
					return 0;
			}
		}
	return 0;
}

/* ------------------------------------------------------------- network */
conn *
sim_new_conn(void)
{
	conn *c;

	if (W.nconns >= MAXCONN)
		mc_fail("harness: too many connections");
	c = &W.conns[W.nconns];
	memset(c, 0, sizeof(*c));
	c->used = 1;
	c->index = W.nconns++;
	c->fd = -1;
	c->window = -1;
	return c;
}
item *
sim_push(conn *c, itemkind k)
{
	item *i;

	if (c->nq >= 96)
		mc_fail("harness: item queue full");
	i = &c->q[c->nq++];
	memset(i, 0, sizeof(*i));
	i->kind = k;
	return i;
}
item *
sim_push_data(conn *c, const void *p, size_t n)
{
	item *i = sim_push(c, I_DATA);

	i->p = malloc(n + 1);
	memcpy(i->p, p, n);
	i->p[n] = '\0';
	i->n = n;
	return i;
}
void
sim_deliver(conn *c, int n)
{
	if (sim_tls) {
		sim_tls->deliver(c, n);
		c->t_last_activity = sim_now();
		return;
	}
	c->nin += n;
	if (c->nin > c->nq)
		c->nin = c->nq;
	c->t_last_activity = sim_now();
}
int
sim_sock_readable(conn *c)
{
	if (c->connect_state == 1)
		return 0;
	if (c->connect_state == 3)
		return 1;
	if (sim_tls)
		return sim_tls->readable(c);
	/* The rest of a record libssl has begun to hand out isn't in the socket anymore. */
	if (c->nin > 0 && c->q[0].kind == I_DATA && c->q[0].off > 0)
		return c->nin > 1;
	return c->nin > 0;
}
int
sim_sock_writable(conn *c)
{
	if (c->outgoing && c->connect_state != 2)
		return c->connect_state == 3;
	return !c->blocked && c->window != 0;
}

/* libcrypto polls for the end of a connection attempt in a busy loop */
int
select(int n, fd_set *rs, fd_set *ws, fd_set *es, struct timeval *tv)
{
	simfd *f;
	int fd;

	for (fd = SIM_FD0; fd < n && mc_in_exec; fd++)
		if (ws && FD_ISSET(fd, ws) && (f = sim_fd(fd)) != NULL && f->conn) {
			if (f->conn->connect_state == 1)
				f->conn->connect_state = sim_connect_outcome ? sim_connect_outcome(f->conn) : 2;
			return 1;
		}
	return (int)syscall(SYS_select, n, rs, ws, es, tv);
}

/* A call on a socket would have to wait for the peer: that's only acceptable on a non-blocking one. */
void
sim_would_block(conn *c, int flags)
{
	simfd *f = c == NULL || c->fd < 0 ? NULL : sim_fd(c->fd);

	if (f != NULL && !f->nonblock && !(flags & MSG_DONTWAIT))
		mc_fail("connection %d is in blocking mode: a peer that does nothing blocks the whole program, and no timeout applies", c->index);
}
/* These are interposed for libcrypto as well (real BIO objects run on them). */
int
socket(int d, int t, int p)
{
	(void)d; (void)t; (void)p;
	if (!mc_in_exec) return (int)syscall(SYS_socket, d, t, p);
	if (W.k_bind_faults && mc_choose(2, "socket: ok/EMFILE") == 1) { W.n_faults++; errno = EMFILE; return -1; }
	return sim_alloc_fd(K_SOCK);
}
int
setsockopt(int fd, int l, int o, const void *v, socklen_t n)
{
	if (!is_simfd(fd)) return (int)syscall(SYS_setsockopt, fd, l, o, v, n);
	if (l == SOL_SOCKET && o == SO_REUSEADDR && *(const int *)v)
		W.reuseaddr++;
	return 0;
}
int
getsockopt(int fd, int l, int o, void *v, socklen_t *n)
{
	simfd *f;

	if (!is_simfd(fd)) return (int)syscall(SYS_getsockopt, fd, l, o, v, n);
	f = sim_fd(fd);
	if (o == SO_ERROR && *n >= (socklen_t)sizeof(int))
		*(int *)v = f && f->conn && f->conn->connect_state == 3 ? ECONNREFUSED : 0;
	return 0;
}
int
bind(int fd, const struct sockaddr *a, socklen_t n)
{
	if (!is_simfd(fd)) return (int)syscall(SYS_bind, fd, a, n);
	if (a->sa_family == AF_INET)
		snprintf(W.bound, sizeof(W.bound), "%s:%d", inet_ntoa(((struct sockaddr_in *)a)->sin_addr),
		    ntohs(((struct sockaddr_in *)a)->sin_port));
	else
		snprintf(W.bound, sizeof(W.bound), "[%s]:%d", a->sa_family == AF_INET6 && IN6_IS_ADDR_UNSPECIFIED(&((struct sockaddr_in6 *)a)->sin6_addr) ? "::" : "?",
		    a->sa_family == AF_INET6 ? ntohs(((struct sockaddr_in6 *)a)->sin6_port) : 0);
	resource("bind", W.bound);
	if (W.k_bind_faults && mc_choose(2, "bind: ok/EADDRINUSE") == 1) { W.n_faults++; errno = EADDRINUSE; return -1; }
	mc_note("bind(%s)", W.bound);
	W.nbinds++;
	return 0;
}
int
listen(int fd, int n)
{
	if (!is_simfd(fd)) return (int)syscall(SYS_listen, fd, n);
	resource("listen", W.bound);
	if (W.k_bind_faults && mc_choose(2, "listen: ok/EADDRINUSE") == 1) { W.n_faults++; errno = EADDRINUSE; return -1; }
	W.nlistens++;
	sim_fd(fd)->kind = K_LISTEN;
	W.listen_fd = fd;
	return 0;
}
static void
fill_addr(struct sockaddr *a, socklen_t *n, int k)
{
	struct sockaddr_in *in = (void *)a;

	if (a == NULL || n == NULL || *n < (socklen_t)sizeof(*in))
		return;
	memset(in, 0, sizeof(*in));
	in->sin_family = AF_INET;
	in->sin_port = htons(5668);
	in->sin_addr.s_addr = htonl(0x0a000001u + (unsigned)k);
	*n = sizeof(*in);
}
static int
do_accept(int fd, struct sockaddr *a, socklen_t *n, int fl)
{
	int i, s;

	(void)fl;
	sim_progress("accept");
	if (sim_fd(fd) == NULL || sim_fd(fd)->kind != K_LISTEN) { errno = EBADF; return -1; }
	for (i = 0; i < W.nconns; i++)
		if (W.conns[i].pending_accept)
			break;
	if (i == W.nconns) {
		if (!sim_fd(fd)->nonblock)
			mc_fail("accept() blocks: the listening socket is in blocking mode");
		errno = EAGAIN;
		return -1;
	}
	if (W.k_accept_faults) {
		int c = mc_choose(4, "accept: ok/EINTR/ECONNABORTED/EMFILE");

		if (c == 1) { errno = EINTR; return -1; }
		if (c == 2) { W.conns[i].pending_accept = 0; W.conns[i].local_closed = 1; errno = ECONNABORTED; return -1; }
		if (c == 3) { errno = EMFILE; return -1; }
	}
	s = sim_alloc_fd(K_SOCK);
	sim_fd(s)->conn = &W.conns[i];
	W.conns[i].pending_accept = 0;
	W.conns[i].accepted_ever = 1;
	W.conns[i].fd = s;
	W.conns[i].t_open = W.conns[i].t_last_activity = sim_now();
	fill_addr(a, n, i);
	mc_note("t=%.1f accepted connection %d (fd %d)", sim_now(), i, s);
	return s;
}
int
accept(int fd, struct sockaddr *a, socklen_t *n)
{
	if (!is_simfd(fd)) return (int)syscall(SYS_accept, fd, a, n);
	return do_accept(fd, a, n, 0);
}
int
accept4(int fd, struct sockaddr *a, socklen_t *n, int fl)
{
	if (!is_simfd(fd)) return (int)syscall(SYS_accept4, fd, a, n, fl);
	return do_accept(fd, a, n, fl);
}
int
connect(int fd, const struct sockaddr *a, socklen_t n)
{
	simfd *f;
	conn *c;

	if (!is_simfd(fd)) return (int)syscall(SYS_connect, fd, a, n);
	f = sim_fd(fd);
	if (f == NULL) { errno = EBADF; return -1; }
	if (f->conn == NULL) {
		c = sim_new_conn();
		c->outgoing = 1;
		c->fd = fd;
		c->connect_state = 1;
		f->conn = c;
		c->t_open = sim_now();
		sim_would_block(c, 0);
		errno = EINPROGRESS;
		return -1;
	}
	c = f->conn;
	if (c->connect_state == 1) { errno = EALREADY; return -1; }
	if (c->connect_state == 3) { errno = ECONNREFUSED; return -1; }
	errno = EISCONN;
	return -1;
}
int
getsockname(int fd, struct sockaddr *a, socklen_t *n)
{
	if (!is_simfd(fd)) return (int)syscall(SYS_getsockname, fd, a, n);
	fill_addr(a, n, -1);
	return 0;
}
int
getpeername(int fd, struct sockaddr *a, socklen_t *n)
{
	simfd *f;

	if (!is_simfd(fd)) return (int)syscall(SYS_getpeername, fd, a, n);
	f = sim_fd(fd);
	if (f == NULL || f->conn == NULL) { errno = EBADF; return -1; }
	if (W.k_accept_faults && mc_choose(2, "getpeername: ok/ENOTCONN") == 1) {
		errno = ENOTCONN;
		return -1;
	}
	fill_addr(a, n, f->conn->index);
	return 0;
}
int
shutdown(int fd, int how)
{
	if (!is_simfd(fd)) return (int)syscall(SYS_shutdown, fd, how);
	return 0;
}
int
ioctl(int fd, unsigned long req, ...)
{
	va_list ap;
	void *p;

	va_start(ap, req);
	p = va_arg(ap, void *);
	va_end(ap);
	if (!is_simfd(fd)) return (int)syscall(SYS_ioctl, fd, req, p);
	if (sim_fd(fd)) sim_fd(fd)->nonblock = *(int *)p;
	return 0;
}
static struct addrinfo ai_static;
static struct sockaddr_in ai_addr;
int
getaddrinfo(const char *h, const char *s, const struct addrinfo *hints, struct addrinfo **res)
{
	snprintf(W.gai_host, sizeof(W.gai_host), "%s", h ? h : "");
	snprintf(W.gai_serv, sizeof(W.gai_serv), "%s", s ? s : "");
	W.gai_calls++;
	ai_addr.sin_family = AF_INET;
	ai_addr.sin_port = htons((uint16_t)(s && atoi(s) > 0 ? atoi(s) : 5668));
	if (h && strstr(h, ".invalid"))
		return EAI_NONAME;
	if (h == NULL)
		ai_addr.sin_addr.s_addr = htonl(hints && hints->ai_flags & AI_PASSIVE ? INADDR_ANY : INADDR_LOOPBACK);
	else if (inet_aton(h, &ai_addr.sin_addr) == 0)
		ai_addr.sin_addr.s_addr = htonl(0x0a090909u);
	ai_static.ai_family = AF_INET;
	ai_static.ai_socktype = SOCK_STREAM;
	ai_static.ai_protocol = IPPROTO_TCP;
	ai_static.ai_addr = (void *)&ai_addr;
	ai_static.ai_addrlen = sizeof(ai_addr);
	ai_static.ai_next = NULL;
	*res = &ai_static;
	return 0;
}
void freeaddrinfo(struct addrinfo *a) { (void)a; }

/* libcrypto closes the sockets it owns */
extern int __close(int);
int
close(int fd)
{
	if (is_simfd(fd) && mc_in_exec)
		return sim_close(fd);
	return (int)syscall(SYS_close, fd);
}

/* --------------------------------------------------------------- epoll */
int
sim_epoll_create1(int fl)
{
	(void)fl;
	return sim_alloc_fd(K_EPOLL);
}
int sim_epoll_create(int n) { (void)n; return sim_alloc_fd(K_EPOLL); }
int
sim_epoll_ctl(int epfd, int op, int fd, struct epoll_event *ev)
{
	simfd *e = sim_fd(epfd), *f = getfd(fd);
	int i;

	if (e == NULL || e->kind != K_EPOLL || f == NULL) { errno = EBADF; return -1; }
	for (i = 0; i < e->nep && e->ep[i].fd != fd; i++)
		continue;
	if (f->kind == K_FILE || (f->kind == K_STDIN && W.stdin_is_file)) { errno = EPERM; return -1; }
	if (op == EPOLL_CTL_ADD) {
		if (i < e->nep) { errno = EEXIST; return -1; }
		e->ep = realloc(e->ep, sizeof(*e->ep) * (size_t)(e->nep + 1));
		e->ep[e->nep].fd = fd;
		e->ep[e->nep].events = ev->events;
		e->ep[e->nep].data = ev->data.u64;
		e->nep++;
		return 0;
	}
	if (i == e->nep) { errno = ENOENT; return -1; }
	if (op == EPOLL_CTL_MOD) {
		e->ep[i].events = ev->events;
		e->ep[i].data = ev->data.u64;
	} else
		e->ep[i] = e->ep[--e->nep];
	return 0;
}

static uint32_t
readiness(int fd)
{
	simfd *f = getfd(fd);
	uint32_t r = 0;
	int i;

	if (f == NULL)
		return 0;
	switch (f->kind) {
	case K_EVENTFD:
		if (f->counter) r |= EPOLLIN;
		r |= EPOLLOUT;
		break;
	case K_PIPER:
		if (f->pbuf.n) r |= EPOLLIN;
		break;
	case K_PIPEW:
		r |= EPOLLOUT;
		break;
	case K_LISTEN:
		for (i = 0; i < W.nconns; i++)
			if (W.conns[i].pending_accept) r |= EPOLLIN;
		break;
	case K_SOCK:
		if (f->conn == NULL) { r |= EPOLLOUT | EPOLLHUP; break; }
		if (sim_sock_readable(f->conn)) r |= EPOLLIN;
		if (sim_sock_writable(f->conn)) r |= EPOLLOUT;
		if (f->conn->connect_state == 3) r |= EPOLLERR | EPOLLHUP;
		if (sim_tls ? sim_tls->reset(f->conn) : f->conn->nin > 0 && f->conn->q[0].kind == I_RST) r |= EPOLLERR | EPOLLHUP | EPOLLOUT;
		break;
	case K_FIFO:
		if (!W.fifo_reader) r |= EPOLLERR;
		if ((size_t)W.fifo_cap - W.fifo_used >= PIPE_BUF) r |= EPOLLOUT;
		break;
	case K_STDIN:
		if (W.stdin_avail.n || W.stdin_eof) r |= EPOLLIN;
		break;
	default:
		break;
	}
	return r;
}

void sim_hash_add(uint64_t v) { extra_hash = mc_hash(extra_hash, &v, sizeof(v)); }

uint64_t
sim_world_hash(void)
{
	uint64_t h = 7, v[12];
	int i;

	for (i = 0; i < W.nconns; i++) {
		conn *c = &W.conns[i];

		v[0] = (uint64_t)i; v[1] = (uint64_t)(c->fd >= 0); v[2] = (uint64_t)c->nq;
		v[3] = (uint64_t)c->nin; v[4] = (uint64_t)c->consumed; v[5] = c->out.n;
		v[6] = (uint64_t)c->window; v[7] = (uint64_t)c->blocked;
		v[8] = (uint64_t)c->peer_close_notify; v[9] = (uint64_t)c->handshaken;
		v[10] = c->nin > 0 ? c->q[0].off : 0; v[11] = (uint64_t)c->connect_state;
		if (sim_tls)
			v[4] = sim_tls->hash(c);
		h = mc_hash(h, v, sizeof(v));
		if (c->out.n)
			h = mc_hash(h, c->out.p, c->out.n);
	}
	v[0] = W.fifo_total; v[1] = W.fifo_used; v[2] = (uint64_t)W.fifo_reader;
	v[3] = (uint64_t)W.fifo_exists; v[4] = (uint64_t)W.nopen; v[5] = (uint64_t)W.nfw;
	v[6] = (uint64_t)W.nfiles; v[7] = (uint64_t)W.mono / 1000000; v[8] = W.stdin_avail.n;
	v[9] = W.stdin_rest.n; v[10] = W.stdin_eof; v[11] = W.terminating;
	h = mc_hash(h, v, sizeof(v));
	for (i = 0; i < W.naio; i++) {
		v[0] = (uint64_t)W.aio[i].active; v[1] = (uint64_t)W.aio[i].state; v[2] = W.aio[i].n;
		h = mc_hash(h, v, 3 * sizeof(v[0]));
	}
	h = mc_hash(h, &extra_hash, sizeof(extra_hash));
	if (W.nfw)
		h = mc_hash(h, W.fw[W.nfw - 1].p, W.fw[W.nfw - 1].n);
	return h;
}

void
sim_progress(const char *what)
{
	if (++W.any_calls_since_wait > 40000)
		mc_fail("livelock: endless loop around %s without returning to the event loop's wait", what);
}

static int
deliver(simfd *e, struct epoll_event *evs, int max, const int *rd, const uint32_t *rv, int n, int from, int count)
{
	int i, k = 0;

	(void)n;
	for (i = from; i < from + count && k < max; i++) {
		evs[k].events = rv[i];
		evs[k].data.u64 = e->ep[rd[i]].data;
		k++;
	}
	return k;
}

static int
wait_common(simfd *e, struct epoll_event *evs, int max, int timeout)
{
	int rd[SIM_NFD * 2], n, i, c, k;
	uint32_t rv[SIM_NFD * 2];
	envevent ev[40];
	int nev, no_wait = 0;

	W.any_calls_since_wait = 0;
	W.epoll_waits++;
	for (;;) {
		if (W.epoll_waits > W.k_max_steps)
			mc_fail("the event loop does not settle (more than %d waits)", W.k_max_steps);
		if (sim_on_step)
			sim_on_step();
		n = 0;
		for (i = 0; i < e->nep; i++) {
			uint32_t r = readiness(e->ep[i].fd) & (e->ep[i].events | EPOLLERR | EPOLLHUP);

			if (r && n < SIM_NFD * 2) {
				rd[n] = i;
				rv[n] = r;
				n++;
			}
		}
		if (timeout == 0) {
			if (n == 0) {
				advance(200000); /* polling takes time, too */
				return 0;
			}
			return deliver(e, evs, max, rd, rv, n, 0, n);
		}
		mc_state(sim_world_hash());
		mc_transition(1);
		nev = sim_enabled && !W.terminating ? sim_enabled(ev, 40) : 0;
		if (W.k_time_is_event && nev < 40 && timeout > 0 && !W.terminating) {
			ev[nev].kind = -1;
			ev[nev].label = "time passes";
			ev[nev].cost = 1;
			nev++;
		}
		if (n > 0) {
			int alts = W.k_ready_first ? 0 : nev;
			int subs = W.k_sub_delivery && n > 1 ? n : 0;

			c = alts + subs > 0 ? mc_choose(1 + alts + subs, "wait: deliver readiness / environment acts first / deliver one only") : 0;
			if (c != 0 && c <= alts)
				W.idle_wakeups = 0;
			else if (++W.idle_wakeups > 400)
				mc_fail("busy loop: the event loop wakes up again and again, although nothing happens");
			if (c == 0)
				return deliver(e, evs, max, rd, rv, n, 0, n);
			if (c > alts)
				return deliver(e, evs, max, rd, rv, n, c - alts - 1, 1);
			k = c - 1;
		} else if (W.idle_wakeups = 0, nev > 0 && !(nev == 1 && ev[0].kind == -1)) {
			k = mc_choose(nev, "wait: which environment event");
		} else {
			if (!W.terminating && sim_quiescent && sim_quiescent()) {
				W.terminating = 1;
				mc_note("t=%.1f signal %d", sim_now(), W.quit_sig);
				sim_raise(W.quit_sig);
				errno = EINTR;
				return -1;
			}
			if (++W.time_advances > W.k_max_advances)
				mc_fail("the program does not become quiescent");
			if (sim_next_time && !W.terminating) {
				double d = sim_next_time() - sim_now();

				if (d > 0 && d < 1e9 && (timeout < 0 || d * 1000 < timeout)) {
					mc_note("t=%.1f nothing to do until t=%.1f", sim_now(), sim_now() + d);
					advance((int64_t)(d * 1e9) + 1000);
					if (W.k_suspend > 0) { /* the process doesn't get to run in the meantime */
						mc_note("the program is suspended for %.1f s", W.k_suspend);
						advance((int64_t)(W.k_suspend * 1e9));
						W.k_suspend = 0;
						no_wait = 1;
					}
					if (timeout > 0 && (timeout -= (int)(d * 1000)) < 1)
						timeout = 1;
					continue;
				}
			}
			if (no_wait) { no_wait = 0; return 0; }
			if (timeout < 0)
				mc_fail("deadlock: the event loop waits forever and nothing can happen");
			mc_note("t=%.1f nothing to do, %d ms pass", sim_now(), timeout);
			advance((int64_t)timeout * 1000000);
			return 0;
		}
		if (ev[k].kind == -1) {
			if (++W.time_advances > W.k_max_advances)
				mc_fail("the program does not become quiescent");
			mc_note("t=%.1f time passes: %d ms", sim_now(), timeout);
			advance((int64_t)timeout * 1000000);
			return 0;
		}
		mc_note("t=%.1f event: %s (%d,%d)", sim_now(), ev[k].label, ev[k].a, ev[k].b);
		{
			uint64_t before = W.mono;

			sim_apply(&ev[k]);
			if ((uint64_t)W.mono != before)
				return 0;
		}
		W.epoll_waits++;
		if (W.sa_set[0]) { /* a signal was delivered */
			W.sa_set[0] = 0;
			errno = EINTR;
			return -1;
		}
		/* signal handlers write to the event loop's eventfd: loop again */
	}
}

int
sim_epoll_wait(int epfd, struct epoll_event *evs, int max, int timeout)
{
	simfd *e = sim_fd(epfd);

	if (e == NULL || e->kind != K_EPOLL) { errno = EBADF; return -1; }
	return wait_common(e, evs, max, timeout);
}
int
sim_epoll_pwait(int epfd, struct epoll_event *evs, int max, int timeout, const sigset_t *s)
{
	(void)s;
	return sim_epoll_wait(epfd, evs, max, timeout);
}

/* poll() and select(): used by libev's probes and by the simple clients */
int
sim_poll(struct pollfd *p, nfds_t n, int timeout)
{
	simfd tmp;
	struct epoll_event evs[16];
	int r, i;

	memset(&tmp, 0, sizeof(tmp));
	tmp.kind = K_EPOLL;
	tmp.ep = calloc(n, sizeof(*tmp.ep));
	for (i = 0; i < (int)n; i++)
		p[i].revents = 0;
	for (i = 0; i < (int)n; i++) {
		if (p[i].fd < 0)
			continue;
		tmp.ep[i].fd = p[i].fd;
		tmp.ep[i].events = ((p[i].events & POLLIN) ? EPOLLIN : 0) | ((p[i].events & POLLOUT) ? EPOLLOUT : 0);
		tmp.ep[i].data = (uint64_t)i;
	}
	tmp.nep = (int)n;
	if (n == 1 && p[0].fd < 0)
		tmp.nep = 0;
	r = wait_common(&tmp, evs, 16, timeout);
	for (i = 0; i < r; i++)
		p[evs[i].data.u64].revents = (short)(((evs[i].events & EPOLLIN) ? POLLIN : 0) |
		    ((evs[i].events & EPOLLOUT) ? POLLOUT : 0) | ((evs[i].events & EPOLLERR) ? POLLERR : 0));
	free(tmp.ep);
	return r;
}
int
sim_select(int nfds, fd_set *rs, fd_set *ws, fd_set *es, struct timeval *tv)
{
	simfd tmp;
	struct epoll_event evs[16];
	int r, i, n = 0, cnt = 0;
	int64_t t0 = W.mono;
	int64_t to = tv ? tv->tv_sec * 1000000000LL + tv->tv_usec * 1000LL : -1;

	(void)es;
	memset(&tmp, 0, sizeof(tmp));
	tmp.kind = K_EPOLL;
	tmp.ep = calloc((size_t)nfds + 1, sizeof(*tmp.ep));
	for (i = 0; i < nfds; i++) {
		uint32_t e = 0;

		if (rs && FD_ISSET(i, rs)) e |= EPOLLIN;
		if (ws && FD_ISSET(i, ws)) e |= EPOLLOUT;
		if (e) {
			tmp.ep[n].fd = i;
			tmp.ep[n].events = e;
			tmp.ep[n].data = (uint64_t)i;
			n++;
		}
	}
	tmp.nep = n;
	sim_progress("select");
	r = wait_common(&tmp, evs, 16, to < 0 ? -1 : to == 0 ? 0 : (int)((to + 999999) / 1000000));
	if (rs) FD_ZERO(rs);
	if (ws) FD_ZERO(ws);
	for (i = 0; i < r; i++) {
		int fd = (int)evs[i].data.u64;

		if (rs && (evs[i].events & (EPOLLIN | EPOLLERR | EPOLLHUP))) { FD_SET(fd, rs); cnt++; }
		if (ws && (evs[i].events & (EPOLLOUT | EPOLLERR))) { FD_SET(fd, ws); cnt++; }
	}
	if (tv && to >= 0) { /* Linux: the time left */
		int64_t left = to - (W.mono - t0);

		if (left < 0) left = 0;
		tv->tv_sec = left / 1000000000;
		tv->tv_usec = (left % 1000000000) / 1000;
	}
	free(tmp.ep);
	return r < 0 ? -1 : cnt;
}

/* ---------------------------------------------------------------- reset */
void
sim_reset(void)
{
	sim_cleanup();
	if (sim_tls)
		sim_tls->clear();
	init_streams();
	memset(&W, 0, sizeof(W));
	W.mono = 1000LL * 1000000000;
	W.real = 1700000000LL * 1000000000;
	W.listen_fd = -1;
	W.fifo_exists = W.fifo_is_fifo = W.fifo_reader = 1;
	W.fifo_cap = 65536;
	W.k_max_steps = 4000;
	W.k_max_advances = 300;
	W.k_recmax = 16384;
	W.pid = 4242;
	W.quit_sig = SIGTERM;
	W.fifo_path = SIM_FIFO;
	W.tmp_path = SIM_TMP;
	sim_on_resource = NULL;
	sim_on_sleep = NULL;
	sim_on_daemon = NULL;
	extra_hash = 0;
	sim_enabled = NULL;
	sim_apply = NULL;
	sim_on_step = NULL;
	sim_quiescent = NULL;
	sim_on_fifo_write = NULL;
	sim_on_exec = NULL;
	sim_on_stdio = NULL;
	sim_auto_fault = 0;
	sim_on_fault = NULL;
	sim_next_time = NULL;
	sim_connect_outcome = NULL;
	fssl_live = 0;
	memset(fssl_offer, 0, sizeof(fssl_offer));
	trk_reset();
	ERR_clear_error();
	snapshot();
	hdestroy();
}

void
sim_cleanup(void)
{
	simfile *f, *nf;
	int i, j;

	for (f = W.files; f; f = nf) {
		nf = f->next;
		sb_free(&f->data);
		free(f);
	}
	for (i = 0; i < W.nconns; i++) {
		for (j = 0; j < W.conns[i].nq; j++)
			free(W.conns[i].q[j].p);
		sb_free(&W.conns[i].out);
	}
	for (i = 0; i < W.nfw; i++)
		free(W.fw[i].p);
	free(W.fw);
	for (i = 0; i < SIM_NFD; i++) {
		free(W.fds[i].ep);
		sb_free(&W.fds[i].pbuf);
	}
	sb_free(&W.log);
	sb_free(&W.err);
	sb_free(&W.sys);
	sb_free(&W.notify);
	sb_free(&W.exec_args);
	free(W.sd_fd.ep);
	sb_free(&W.out);
	sb_free(&W.stdin_avail);
	sb_free(&W.stdin_rest);
}
simfile *sim_create_file(const char *path, int mode) { return create_file(path, mode); }
