/*
 * Several servers which use the same PID file at the same time: the real
 * pidfile library, with a scheduling point at each of its system calls.
 */
#define _GNU_SOURCE
#include "mc.h"
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

#define ARG ((int)(intptr_t)arg)
#define A(n) ((void *)(intptr_t)(n))
#define PATH "/sim/run/p.pid"
#define NP 4
#define STACK (64 * 1024)

struct pidfh;
extern struct pidfh *pidfile_open(const char *, mode_t, pid_t *);
extern int pidfile_write(struct pidfh *), pidfile_remove(struct pidfh *);

/* ---------------------------------------------------------- file system */
typedef struct { int used, linked; char data[64]; size_t n; int mode; int lock; /* open file description + 1 */ } inode;
typedef struct { int used, ino, flags, proc; off_t off; } ofd;
static inode I[24];
static ofd O[24];
static int nino;

/* ------------------------------------------------------------ processes */
enum { P_START, P_OPEN, P_GOT, P_RUN, P_REMOVE, P_REFUSED, P_DONE, P_CRASHED };
typedef struct {
	ucontext_t ctx;
	char *stack;
	int pid, phase, runnable, err, sleeping, restarts, daemonizes, delay;
	int contended;                  /* another one was alive during its attempt */
	int writing;
	pid_t other;
} proc;
static proc P[NP];
static int np, cur, crashes, restarts_ok;
static ucontext_t back;
static const char *const PH[] = { "start", "open", "locked", "running", "removing", "refused", "done", "crashed" };

static int holds(int i) { return P[i].phase == P_GOT || P[i].phase == P_RUN; }
static int alive(int i) { return P[i].phase == P_OPEN || P[i].phase == P_GOT || P[i].phase == P_RUN || P[i].phase == P_REMOVE; }
static inode *
lookup(void)
{
	int i;

	for (i = 0; i < nino; i++)
		if (I[i].used && I[i].linked)
			return &I[i];
	return NULL;
}
static void
monitor(void)
{
	int i, j;
	char b[20];

	for (i = 0; i < np; i++) {
		for (j = 0; j < i; j++) {
			if (holds(i) && holds(j))
				mc_fail("two servers (%d: %s, %d: %s) hold the PID file at the same time", P[i].pid, PH[P[i].phase], P[j].pid, PH[P[j].phase]);
			if (alive(i) && alive(j))
				P[i].contended = P[j].contended = 1;
		}
		if (P[i].phase == P_RUN) {
			inode *f = lookup();

			snprintf(b, sizeof(b), "%d", P[i].pid);
			if (f == NULL)
				mc_fail("the PID file has vanished, though server %d is running", P[i].pid);
			if (f->n != strlen(b) || memcmp(f->data, b, f->n))
				mc_fail("the PID file contains %.*s, though server %d is running", (int)f->n, f->data, P[i].pid);
		}
	}
}
static void
release(int p)
{
	int i;

	for (i = 0; i < 24; i++)
		if (O[i].used && O[i].proc == p) {
			if (I[O[i].ino].lock == i + 1)
				I[O[i].ino].lock = 0;
			O[i].used = 0;
		}
}
static uint64_t
state_hash(void)
{
	uint64_t h = 5;
	int i;

	for (i = 0; i < nino; i++) {
		h = mc_hash(h, &I[i].linked, sizeof(int));
		h = mc_hash(h, &I[i].lock, sizeof(int));
		h = mc_hash(h, I[i].data, I[i].n);
	}
	for (i = 0; i < np; i++)
		h = mc_hash(h, &P[i].phase, sizeof(int));
	h = mc_hash(h, &cur, sizeof(cur));
	return h;
}
/* before each system call */
static void
point(const char *what)
{
	P[cur].err = errno;
	swapcontext(&P[cur].ctx, &back);
	errno = P[cur].err;
	mc_note("server %d: %s", P[cur].pid, what);
}

/* --------------------------------------------------------- system calls */
static ofd *get(int fd) { return fd >= 100 && fd < 124 && O[fd - 100].used && O[fd - 100].proc == cur ? &O[fd - 100] : NULL; }
int
pm_open(const char *path, int flags, ...)
{
	inode *f;
	va_list ap;
	int mode, i;

	va_start(ap, flags);
	mode = flags & O_CREAT ? va_arg(ap, int) : 0;
	va_end(ap);
	point(flags & O_CREAT ? "open(O_CREAT)" : "open()");
	if (strcmp(path, PATH))
		mc_fail("open(%s)", path);
	f = lookup();
	if (f && (flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
	if (f == NULL) {
		if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
		if (nino == 24)
			mc_fail("the PID file is created again and again");
		f = &I[nino++];
		memset(f, 0, sizeof(*f));
		f->used = f->linked = 1;
		f->mode = mode;
	}
	if (flags & O_TRUNC)
		f->n = 0;
	for (i = 0; i < 24; i++)
		if (!O[i].used)
			break;
	if (i == 24)
		mc_fail("descriptor leak");
	O[i] = (ofd){ 1, (int)(f - I), flags, cur, 0 };
	return 100 + i;
}
int
pm_close(int fd)
{
	ofd *o;

	point("close()");
	if ((o = get(fd)) == NULL) { errno = EBADF; return -1; }
	if (I[o->ino].lock == (int)(o - O) + 1)
		I[o->ino].lock = 0;
	o->used = 0;
	return 0;
}
int
pm_flock(int fd, int op)
{
	ofd *o;

	point(op & LOCK_UN ? "flock(LOCK_UN)" : "flock(LOCK_EX)");
	for (;;) {
		if ((o = get(fd)) == NULL) { errno = EBADF; return -1; }
		if (op & LOCK_UN) {
			if (I[o->ino].lock == (int)(o - O) + 1)
				I[o->ino].lock = 0;
			return 0;
		}
		if (I[o->ino].lock == 0 || I[o->ino].lock == (int)(o - O) + 1) {
			I[o->ino].lock = (int)(o - O) + 1;
			return 0;
		}
		if (op & LOCK_NB) { errno = EWOULDBLOCK; return -1; }
		mc_fail("a server waits for the lock instead of giving up");
	}
}
static int
fill(inode *f, struct stat *sb)
{
	memset(sb, 0, sizeof(*sb));
	sb->st_ino = (ino_t)(f - I) + 10;
	sb->st_dev = 7;
	sb->st_nlink = (nlink_t)f->linked;
	sb->st_mode = S_IFREG | (mode_t)f->mode;
	sb->st_size = (off_t)f->n;
	return 0;
}
int
pm_stat(const char *p, struct stat *sb)
{
	inode *f;

	point("stat()");
	(void)p;
	if ((f = lookup()) == NULL) { errno = ENOENT; return -1; }
	return fill(f, sb);
}
int
pm_fstat(int fd, struct stat *sb)
{
	ofd *o;

	point("fstat()");
	if ((o = get(fd)) == NULL) { errno = EBADF; return -1; }
	return fill(&I[o->ino], sb);
}
int
pm_ftruncate(int fd, off_t n)
{
	ofd *o;

	point("ftruncate()");
	if ((o = get(fd)) == NULL) { errno = EBADF; return -1; }
	if ((size_t)n > sizeof(I[o->ino].data))
		mc_fail("the PID file is extended to %ld octets", (long)n);
	if ((size_t)n > I[o->ino].n)
		memset(I[o->ino].data + I[o->ino].n, 0, (size_t)n - I[o->ino].n);
	I[o->ino].n = (size_t)n;
	return 0;
}
off_t
pm_lseek(int fd, off_t off, int wh)
{
	ofd *o = get(fd);

	if (o == NULL) { errno = EBADF; return -1; }
	return o->off = off + (wh == SEEK_SET ? 0 : wh == SEEK_CUR ? o->off : (off_t)I[o->ino].n);
}
int
pm_fcntl(int fd, int cmd, ...)
{
	ofd *o = get(fd);

	if (o == NULL) { errno = EBADF; return -1; }
	if (cmd == F_GETFD || cmd == F_SETFD || cmd == F_SETFL)
		return 0;
	if (cmd == F_GETFL)
		return o->flags & ~(O_CREAT | O_EXCL | O_TRUNC);
	mc_fail("fcntl(%d) isn't modelled", cmd);
}
ssize_t
pm_read(int fd, void *b, size_t n)
{
	ofd *o;
	inode *f;

	point("read()");
	if ((o = get(fd)) == NULL) { errno = EBADF; return -1; }
	f = &I[o->ino];
	if ((size_t)o->off >= f->n)
		return 0;
	if (n > f->n - (size_t)o->off)
		n = f->n - (size_t)o->off;
	memcpy(b, f->data + o->off, n);
	o->off += (off_t)n;
	return (ssize_t)n;
}
ssize_t
pm_pwrite(int fd, const void *b, size_t n, off_t off)
{
	ofd *o;
	inode *f;

	point("pwrite()");
	if ((o = get(fd)) == NULL || (o->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
	f = &I[o->ino];
	if ((size_t)off + n > sizeof(f->data))
		mc_fail("%zu octets written into the PID file at offset %ld", n, (long)off);
	if ((size_t)off > f->n) /* a hole */
		memset(f->data + f->n, 0, (size_t)off - f->n);
	memcpy(f->data + off, b, n);
	if (f->n < (size_t)off + n)
		f->n = (size_t)off + n;
	return (ssize_t)n;
}
ssize_t
pm_write(int fd, const void *b, size_t n)
{
	ofd *o = get(fd);
	ssize_t r;

	if (o == NULL) { errno = EBADF; return -1; }
	if (o->flags & O_APPEND)
		o->off = (off_t)I[o->ino].n;
	r = pm_pwrite(fd, b, n, o->off);
	if (r > 0)
		o->off += r;
	return r;
}
ssize_t
pm_pread(int fd, void *b, size_t n, off_t off)
{
	ofd *o = get(fd);
	off_t saved;
	ssize_t r;

	if (o == NULL) { errno = EBADF; return -1; }
	saved = o->off;
	o->off = off;
	r = pm_read(fd, b, n);
	o->off = saved;
	return r;
}
int
pm_vdprintf(int fd, const char *fmt, va_list ap)
{
	char b[256];
	int n = vsnprintf(b, sizeof(b), fmt, ap);

	return (int)pm_write(fd, b, (size_t)n < sizeof(b) ? (size_t)n : sizeof(b) - 1);
}
int
pm_dprintf(int fd, const char *fmt, ...)
{
	va_list ap;
	int r;

	va_start(ap, fmt);
	r = pm_vdprintf(fd, fmt, ap);
	va_end(ap);
	return r;
}
int pm_fsync(int fd) { return get(fd) ? 0 : (errno = EBADF, -1); }
int pm_fdatasync(int fd) { return pm_fsync(fd); }
int pm_lstat(const char *p, struct stat *sb) { return pm_stat(p, sb); }
int pm_usleep(useconds_t u) { (void)u; return pm_nanosleep(NULL, NULL); }
int
pm_unlink(const char *p)
{
	inode *f;

	point("unlink()");
	if (strcmp(p, PATH))
		mc_fail("unlink(%s)", p);
	if ((f = lookup()) == NULL) { errno = ENOENT; return -1; }
	f->linked = 0;
	return 0;
}
int
pm_nanosleep(const struct timespec *a, struct timespec *b)
{
	(void)a; (void)b;
	P[cur].sleeping = 1;
	point("nanosleep()");
	return 0;
}
pid_t pm_getpid(void) { return P[cur].pid; }

/* -------------------------------------------------------------- servers */
/* what src/server/nsca-ng.c does (the C14 scenarios of h_start.c check that) */
static void
server(int i)
{
	struct pidfh *h;
	int again = P[i].restarts;

	for (;;) {
		P[i].phase = P_OPEN;
		P[i].contended = 0;
		monitor();
		errno = 0;
		P[i].other = 0;
		h = pidfile_open(PATH, 0600, &P[i].other);
		if (h == NULL) {
			int e = errno;

			mc_note("server %d: refused (%s, PID %d)", P[i].pid, strerror(e), (int)P[i].other);
			if (!P[i].contended)
				mc_fail("server %d was refused (%s), though no other server was running", P[i].pid, strerror(e));
			if (e == 0)
				mc_fail("server %d was refused without an error code", P[i].pid);
			P[i].phase = P_REFUSED;
			release(i);
			break;
		}
		P[i].phase = P_GOT;
		mc_note("server %d: got the lock", P[i].pid);
		monitor();
		if (P[i].daemonizes) {
			P[i].pid += 50;
			mc_note("server %d: in the background now", P[i].pid);
		}
		if (pidfile_write(h) == -1)
			mc_fail("server %d cannot write the PID file: %s", P[i].pid, strerror(errno));
		P[i].phase = P_RUN;
		mc_note("server %d: running", P[i].pid);
		monitor();
		point("works");
		point("is told to stop");
		P[i].phase = P_REMOVE;
		if (pidfile_remove(h) == -1)
			mc_fail("server %d cannot remove the PID file: %s", P[i].pid, strerror(errno));
		if (again-- > 0) {
			mc_note("server %d: restarts", P[i].pid);
			release(i); /* close-on-exec or not: it has been closed */
			P[i].phase = P_START;
			continue;
		}
		P[i].phase = P_DONE;
		release(i);
		break;
	}
	P[i].runnable = 0;
	P[i].err = errno;
	swapcontext(&P[i].ctx, &back);
}
static void
spawn(int i)
{
	if (P[i].stack == NULL)
		P[i].stack = malloc(STACK);
	getcontext(&P[i].ctx);
	P[i].ctx.uc_stack.ss_sp = P[i].stack;
	P[i].ctx.uc_stack.ss_size = STACK;
	P[i].ctx.uc_link = NULL;
	makecontext(&P[i].ctx, (void (*)(void))server, 1, i);
	P[i].runnable = 1;
}
static void
run_all(int may_crash)
{
	int i, n, c, order[NP], def, left = may_crash;

	for (;;) {
		/* the current one first (unless it sleeps), then the others */
		n = 0;
		if (P[cur].runnable && !P[cur].sleeping)
			order[n++] = cur;
		for (i = 0; i < np; i++)
			if (P[i].runnable && !(i == cur && n > 0 && order[0] == cur) && !P[i].sleeping)
				order[n++] = i;
		for (i = 0; i < np; i++)
			if (P[i].runnable && P[i].sleeping)
				order[n++] = i;
		if (n == 0)
			break;
		def = n;
		/* crash of the current one: the last alternative */
		if (left && P[cur].runnable && alive(cur))
			n++;
		/* switching away from one which could go on, and waking it up early, costs 1 */
		c = P[cur].runnable ? mc_choose(n, "schedule") : mc_choose_free(n, "schedule");
		if (c == def) {
			mc_note("server %d crashes", P[cur].pid);
			release(cur);
			P[cur].phase = P_CRASHED;
			P[cur].runnable = 0;
			crashes++;
			left--;
			monitor();
			continue;
		}
		cur = order[c];
		P[cur].sleeping = 0;
		mc_transition(1);
		swapcontext(&back, &P[cur].ctx);
		monitor();
		mc_state(state_hash());
	}
}
/* arg: number of servers | 16: stale file | 32: crashes | 64: restarts */
static void
sc(void *arg)
{
	int i, k, daemons;
	uint64_t h = 9;

	memset(I, 0, sizeof(I));
	memset(O, 0, sizeof(O));
	nino = cur = crashes = 0;
	np = ARG & 15;
	for (i = 0; i < NP; i++) {
		char *s = P[i].stack;

		memset(&P[i], 0, sizeof(P[i]));
		P[i].stack = s;
		P[i].pid = 1000 + i;
	}
	daemons = mc_choose_free(2, "daemons");
	if ((ARG & 16) && (k = mc_choose_free(5, "stale PID file"))) {
		static const char *const s[] = { "", "77", "1001", "123456789012345", "rubbish" };

		nino = 1;
		I[0].used = I[0].linked = 1;
		strcpy(I[0].data, s[k - 1]);
		I[0].n = strlen(s[k - 1]);
	}
	for (i = 0; i < np; i++) {
		P[i].daemonizes = daemons;
		if (ARG & 64)
			P[i].restarts = i == 0;
		spawn(i);
	}
	run_all(ARG & 32 ? 2 : 0);
	for (i = 0; i < np; i++)
		h = mc_hash(h, &P[i].phase, sizeof(int));
	k = 0;
	for (i = 0; i < np; i++)
		k += P[i].phase == P_DONE || P[i].phase == P_CRASHED;
	if (k == 0)
		mc_fail("none of the servers was able to start");
	if (!crashes && lookup())
		mc_fail("the PID file was left behind");
	/* a later start succeeds in any case */
	i = np++;
	P[i].pid = 2000;
	cur = i;
	spawn(i);
	run_all(0);
	if (P[i].phase != P_DONE)
		mc_fail("a later start failed");
	if (lookup())
		mc_fail("the PID file was left behind");
	mc_nontrivial(h);
	mc_sample("%d servers: %s, %s, %s; %d crashes", np - 1, PH[P[0].phase], PH[P[1].phase], np > 3 ? PH[P[2].phase] : "-", crashes);
}

static mc_scenario SCN[] = {
	{ "two", "C14", sc, A(2 | 16), 5, 6 },
	{ "two-crash", "C14", sc, A(2 | 16 | 32), 4, 5 },
	{ "two-restart", "C14", sc, A(2 | 64), 4, 6 },
	{ "three", "C14", sc, A(3), 3, 5 },
	{ "three-crash", "C14", sc, A(3 | 32), 3, 4 },
	{ "three-restart-crash", "C14", sc, A(3 | 64 | 32), 3, 4 },
};
int main(int argc, char **argv) { return mc_main(argc, argv, SCN, sizeof(SCN) / sizeof(*SCN)); }
