/*
 * The replacements for functions which a system's C library may lack, as
 * compiled there, compared to what the functions are meant to do.
 */
#define _GNU_SOURCE
#include "mc.h"
#include <errno.h>
#include <fcntl.h>
#include <inttypes.h>
#include <limits.h>
#include <math.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <unistd.h>

#define A(n) ((void *)(intptr_t)(n))
#define NEL(a) ((int)(sizeof(a) / sizeof(*(a))))
int rpl_vsnprintf(char *, size_t, const char *, va_list);
int rpl_snprintf(char *, size_t, const char *, ...);
int rpl_vasprintf(char **, const char *, va_list);
int rpl_asprintf(char **, const char *, ...);
int x_strcasecmp(const char *, const char *);
int x_strncasecmp(const char *, const char *, size_t);
char *x_strdup(const char *);
int x_daemon(int, int);
int x_flock(int, int);
void x_setprogname(const char *);
const char *x_getprogname(void);

/* ------------------------------------------------------------- printf */
static uint64_t cases;
static void
cmp(const char *fmt, int ret, const char *got, const char *end, int want, const char *w, size_t size, const char *how)
{
	cases++;
	if (ret != want)
		mc_fail("%s(\"%s\") returns %d, not %d (\"%s\")", how, fmt, ret, want, w);
	if (size == 0)
		return;
	if (memchr(got, 0, size) == NULL)
		mc_fail("%s(\"%s\"): unterminated result in a buffer of %zu bytes", how, fmt, size);
	if (strncmp(got, w, size - 1) || strlen(got) != ((size_t)want < size ? (size_t)want : size - 1))
		mc_fail("%s(\"%s\") in a buffer of %zu bytes: \"%s\", not \"%s\"", how, fmt, size, got, w);
	(void)end;
}
#define CHECK(fmt, ...) do { \
	char w_[400]; int n_ = snprintf(w_, sizeof(w_), fmt, __VA_ARGS__), i_; \
	size_t s_[6] = { 0, 1, 2, (size_t)n_, (size_t)n_ + 1, (size_t)n_ + 9 }; \
	for (i_ = 0; i_ < 6; i_++) { char *b_ = malloc(s_[i_] + !s_[i_]); \
		memset(b_, 'Z', s_[i_] + !s_[i_]); \
		cmp(fmt, rpl_snprintf(s_[i_] ? b_ : NULL, s_[i_], fmt, __VA_ARGS__), b_, NULL, n_, w_, s_[i_], "snprintf"); free(b_); } \
	{ char *p_ = NULL; int r_ = rpl_asprintf(&p_, fmt, __VA_ARGS__); cmp(fmt, r_, p_ ? p_ : "", NULL, n_, w_, (size_t)n_ + 1, "asprintf"); free(p_); } \
} while (0)
static const char *const WIDTH[] = { "", "1", "2", "5", "12", "*" };
static const char *const PREC[] = { "", ".", ".0", ".1", ".2", ".3", ".7", ".*" };
static const int STARW[] = { 0, 3, 9, -4, -11 }, STARP[] = { -1, 0, 4 };

/* one conversion specification, all arguments */
#define ARGS(T, v) do { \
	if (ws && ps) CHECK(fmt, w, p, (T)(v)); else if (ws) CHECK(fmt, w, (T)(v)); else if (ps) CHECK(fmt, p, (T)(v)); else CHECK(fmt, (T)(v)); } while (0)
static void
sc_printf(void *arg)
{
	static const char conv[] = "diuoxXcspfFeEgG";
	static const char *const len[] = { "", "hh", "h", "l", "ll", "j", "z", "t" };
	static const intmax_t iv[] = { 0, 1, -1, 7, 8, 10, 42, 99, 100, -100, 255, 256, -128, 32767, 65535, 65536, 1234567, INT_MAX, INT_MIN, INT32_C(-5), UINT_MAX,
		INT64_C(123456789012), INTMAX_MAX, INTMAX_MIN + 1, -2 };
	static const double fv[] = { 0, 1, -1, 0.3, 0.26, -0.74, 1.23, 3, 9.87, 9.99999997, 10, 99.2, 99.97, 100, -123.27, 1024, 65536.4, 123456, 1e6, -1e9, 999999.7, 0.001953, 0.0001234, 0.00001234, 1.234e-9, 6.02e23 / 1e10, INFINITY, -INFINITY };
	static const char *const sv[] = { "", "a", "ab", "abcdef", "abcdefghijklmnop", "%s", "\xc3\xa4" };
	char c = conv[mc_choose_free(15, "conversion")];
	int f = mc_choose_free(32, "flags"), wi = mc_choose_free(NEL(WIDTH), "width"), pi = mc_choose_free(NEL(PREC), "precision"), l, i, a, b, k = 0;
	int isint = strchr("diuoxX", c) != NULL, isflt = strchr("fFeEgG", c) != NULL;
	int ws = WIDTH[wi][0] == '*', ps = PREC[pi][0] && PREC[pi][1] == '*', zero = PREC[pi][0] && strchr(".0*", PREC[pi][1]) != NULL;
	char flags[8], fmt[60];

	(void)arg;
	if (f & 1) flags[k++] = '-';
	if (f & 2) flags[k++] = '+';
	if (f & 4) flags[k++] = ' ';
	if (f & 8) flags[k++] = '#';
	if (f & 16) flags[k++] = '0';
	flags[k] = 0;
	/* undefined combinations, and those documented as unsupported */
	if ((f & 8) && strchr("diucsp", c)) mc_abandon();
	if ((f & 16) && strchr("csp", c)) mc_abandon();
	if ((f & 6) && strchr("csp", c)) mc_abandon();
	if (c == 'p' && *PREC[pi]) mc_abandon();
	if (c == 'c' && (*PREC[pi] || *WIDTH[wi])) mc_abandon(); /* padding of %c is not implemented */
	cases = 0;
	for (l = 0; l < (isint ? NEL(len) : 1); l++) {
		snprintf(fmt, sizeof(fmt), "<%%%s%s%s%s%c>%%%%", flags, WIDTH[wi], PREC[pi], len[l], c);
		for (a = 0; a < (ws ? NEL(STARW) : 1); a++)
			for (b = 0; b < (ps ? NEL(STARP) : 1); b++) {
				int w = STARW[a], p = STARP[b];

				if (isint)
					for (i = 0; i < NEL(iv); i++) {
						intmax_t v = iv[i];

						if (zero && (v == 0 || (l == 1 && (v & 255) == 0) || (l == 2 && (v & 65535) == 0) || (l == 0 && (int)v == 0)))
							continue; /* prints "0" */
						if (l == 0 || l == 1 || l == 2) ARGS(int, v);
						else if (l == 3) ARGS(long, v);
						else if (l == 4) ARGS(long long, v);
						else if (l == 5) ARGS(intmax_t, v);
						else if (l == 6) ARGS(size_t, v);
						else ARGS(ptrdiff_t, v);
					}
				else if (isflt)
					for (i = 0; i < NEL(fv); i++) {
						if (isinf(fv[i]) && (f & 16))
							continue;
						if ((f & 8) && (c == 'g' || c == 'G') && (i == 9 || i == 12 || i == 20)) /* glibc 2.39's %#g is wrong if these are rounded up */
							continue;
						ARGS(double, fv[i]);
					}
				else if (c == 's')
					for (i = 0; i < NEL(sv); i++)
						ARGS(const char *, sv[i]);
				else if (c == 'c')
					for (i = 1; i < 256; i++)
						ARGS(int, i);
				else {
					ARGS(void *, NULL);
					ARGS(void *, (void *)0x1234);
					ARGS(void *, (void *)0x7fff12345678);
				}
			}
	}
	mc_transition((int)cases);
	mc_state(mc_hash(1, fmt, strlen(fmt)));
	mc_nontrivial(mc_hash(1, fmt, strlen(fmt)));
	if (f == 0)
		mc_sample("%s: %llu calls agree with the C library", fmt, (unsigned long long)cases);
}
/* texts of several conversions, as used by the package */
static void
sc_format(void *arg)
{
	static const char *const t[] = { "", "x", "%%", "%s", "%d", "%.*s", "%zu", "%5s|", "%lu", "%c" };
	int n = mc_choose_free(4, "parts"), i, k[3] = { 0, 0, 0 };
	char fmt[100] = "";
	static const char *const s[] = { "", "text", "a longer text which doesn't fit" };
	int j;

	(void)arg;
	for (i = 0; i < n; i++) {
		k[i] = mc_choose_free(NEL(t), "part");
		strcat(fmt, t[k[i]]);
	}
	cases = 0;
	/* the arguments of each part are passed in registers or on the stack: build all calls with a fixed argument list per part */
	for (j = 0; j < NEL(s); j++) {
		long av[6];
		int m = 0;

		for (i = 0; i < n; i++)
			switch (k[i]) {
			case 3: case 7: av[m++] = (long)s[j]; break;
			case 4: av[m++] = -17 * (j - 1); break;
			case 5: av[m++] = j * 2; av[m++] = (long)s[j]; break;
			case 6: case 8: av[m++] = 100000L * j; break;
			case 9: av[m++] = 'A' + j; break;
			}
		for (; m < 6; m++)
			av[m] = 0;
		CHECK(fmt, av[0], av[1], av[2], av[3], av[4], av[5]);
	}
	mc_transition((int)cases);
	mc_state(mc_hash(2, fmt, strlen(fmt)));
	mc_nontrivial(mc_hash(2, fmt, strlen(fmt)));
}

/* ------------------------------------------------------------ strings */
static int sgn(int x) { return (x > 0) - (x < 0); }
static int low(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int
ref_cmp(const char *a, const char *b, size_t n)
{
	for (; n > 0; n--, a++, b++) {
		int x = low((unsigned char)*a), y = low((unsigned char)*b);

		if (x != y) return sgn(x - y);
		if (!x) break;
	}
	return 0;
}
static const char ALPHA[] = "aAbzZ@[`{0 \x80\xc9\xe9\xff";
static void
sc_strcase(void *arg)
{
	int la = mc_choose_free(4, "length"), lb, i, n, total, x;
	char a[5] = "", b[5];

	(void)arg;
	for (i = 0; i < la; i++)
		a[i] = ALPHA[mc_choose_free(NEL(ALPHA) - 1, "letter")];
	cases = 0;
	for (lb = 0; lb <= 3; lb++) {
		for (total = 1, i = 0; i < lb; i++) total *= NEL(ALPHA) - 1;
		for (x = 0; x < total; x++) {
			char *pa, *pb;
			int y = x;

			memset(b, 0, sizeof(b));
			for (i = 0; i < lb; i++, y /= NEL(ALPHA) - 1) b[i] = ALPHA[y % (NEL(ALPHA) - 1)];
			if (sgn(x_strcasecmp(a, b)) != ref_cmp(a, b, 99))
				mc_fail("strcasecmp(\"%s\", \"%s\") is %d", a, b, x_strcasecmp(a, b));
			cases++;
			{
				char la_[12], lb_[12];

				snprintf(la_, sizeof(la_), "Word%s", a);
				snprintf(lb_, sizeof(lb_), "wORD%s", b);
				if (sgn(x_strcasecmp(la_, lb_)) != ref_cmp(a, b, 99) || sgn(x_strncasecmp(la_, lb_, 6)) != ref_cmp(a, b, 2))
					mc_fail("\"%s\" and \"%s\" compare as %d, the first 6 characters as %d", la_, lb_, x_strcasecmp(la_, lb_), x_strncasecmp(la_, lb_, 6));
				cases += 2;
			}
			if (lb < 3 || mc_tier_thorough())
				for (n = 0; n < 5; n++) {
					/* nothing behind the limit may be read */
					pa = malloc((size_t)(n < la + 1 ? n : la + 1) + !n);
					pb = malloc((size_t)(n < lb + 1 ? n : lb + 1) + !n);
					memcpy(pa, a, (size_t)(n < la + 1 ? n : la + 1));
					memcpy(pb, b, (size_t)(n < lb + 1 ? n : lb + 1));
					y = x_strncasecmp(pa, pb, (size_t)n);
					free(pa);
					free(pb);
					if (sgn(y) != ref_cmp(a, b, (size_t)n))
						mc_fail("strncasecmp(\"%s\", \"%s\", %d) is %d", a, b, n, y);
					cases++;
				}
		}
	}
	{
		char *d = x_strdup(a);

		if (d == NULL || d == a || strcmp(d, a))
			mc_fail("strdup(\"%s\") is \"%s\"", a, d ? d : "NULL");
		d[0] = 'x';
		free(d);
	}
	mc_transition((int)cases);
	mc_state(mc_hash(3, a, sizeof(a)));
	mc_nontrivial(mc_hash(3, a, sizeof(a)));
}
static void
sc_progname(void *arg)
{
	static const char al[] = "a/.b";
	int l = 1 + mc_choose_free(6, "length"), i;
	char p[8] = "";
	const char *want;

	(void)arg;
	for (i = 0; i < l; i++)
		p[i] = al[mc_choose_free(4, "letter")];
	if (p[l - 1] == '/')
		mc_abandon(); /* a program's path doesn't end with a slash */
	want = strrchr(p, '/') ? strrchr(p, '/') + 1 : p;
	x_setprogname(p);
	if (x_getprogname() == NULL || strcmp(x_getprogname(), want))
		mc_fail("the name of %s is %s", p, x_getprogname() ? x_getprogname() : "NULL");
	mc_state(mc_hash(4, p, sizeof(p)));
	mc_transition(1);
	mc_nontrivial(mc_hash(4, p, sizeof(p)));
}

/* ------------------------------------------------------------- daemon() */
static struct { int gen, leader, session, failed, cwd_root, fd[16], null_fails, exited, status, failures; } P;
int
cm_fork(void)
{
	switch (mc_choose_free(3, "fork(): child/parent/error")) {
	case 0: P.gen++; P.leader = 0; return 0;
	case 1: return 4711;
	default: P.failed = 1; errno = EAGAIN; return -1;
	}
}
int cm_vfork(void) { return cm_fork(); }
static jmp_buf out;
void cm__exit(int st) { P.exited = 1; P.status = st; longjmp(out, 1); }
void cm_exit(int st) { cm__exit(st); }
int
cm_setsid(void)
{
	mc_transition(1);
	if (P.gen == 0) { errno = EPERM; return -1; } /* a process group leader cannot do this */
	if (mc_choose_free(2, "setsid() fails")) { P.failed = 1; errno = EPERM; return -1; }
	P.session = P.leader = 1;
	return 300;
}
int cm_chdir(const char *p) { mc_transition(1); if (mc_choose_free(2, "chdir() fails")) { P.failures |= 1; errno = EACCES; return -1; } P.cwd_root = !strcmp(p, "/"); return 0; }
int
cm_open(const char *p, int fl, ...)
{
	int i;

	mc_transition(1);
	if (strcmp(p, "/dev/null")) mc_fail("opens %s", p);
	if (mc_choose_free(2, "open() fails")) { P.failures |= 2; errno = ENFILE; return -1; }
	for (i = 0; i < 16 && P.fd[i]; i++) continue;
	P.fd[i] = (fl & O_ACCMODE) == O_RDWR ? 9 : (fl & O_ACCMODE) == O_WRONLY ? 8 : 7;
	return i;
}
int cm_dup2(int a, int b) { if (a < 0 || a > 15 || !P.fd[a]) { errno = EBADF; return -1; } P.fd[b] = P.fd[a]; return b; }
int cm_dup3(int a, int b, int f) { (void)f; if (a == b) { errno = EINVAL; return -1; } return cm_dup2(a, b); }
int cm_close(int a) { if (a < 0 || a > 15 || !P.fd[a]) { errno = EBADF; return -1; } P.fd[a] = 0; return 0; }
int
cm_fcntl(int fd, int cmd, ...);

int cm_open64(const char *p, int fl, ...) { return cm_open(p, fl); }
static void
sc_daemon(void *arg)
{
	int nochdir = mc_choose_free(2, "nochdir"), noclose = mc_choose_free(2, "noclose"), std = mc_choose_free(8, "standard descriptors"), i, r = 7;

	(void)arg;
	memset(&P, 0, sizeof(P));
	for (i = 0; i < 3; i++)
		P.fd[i] = std & (1 << i) ? 0 : 1 + i;
	if (setjmp(out) == 0)
		r = x_daemon(nochdir, noclose);
	if (P.exited) {
		if (P.status != 0)
			mc_fail("a parent exits with status %d", P.status);
		if (P.failed)
			mc_fail("exits although fork() or setsid() failed: the caller doesn't learn about it");
	} else if (P.failed) {
		if (r != -1)
			mc_fail("returns %d although fork() or setsid() failed", r);
	} else {
		if (r != 0)
			mc_fail("returns %d", r);
		if (P.gen == 0 || !P.session)
			mc_fail("success, but not in a new session in the background (%d forks, session: %d)", P.gen, P.session);
		if (P.leader)
			mc_fail("the daemon leads its session, and might acquire a controlling terminal");
		if (!(P.failures & 1) && P.cwd_root != !nochdir)
			mc_fail("the working directory was%s changed although nochdir is %d", nochdir ? "" : "n't", nochdir);
		for (i = 0; i < 16; i++) {
			int want = i < 3 ? (!noclose && !(P.failures & 2) ? 9 : std & (1 << i) ? 0 : 1 + i) : 0;

			if (P.fd[i] != want)
				mc_fail("descriptor %d %s (noclose: %d)", i, i > 2 ? "was left open" : "isn't what it should be", noclose);
		}
	}
	i = (nochdir * 2 + noclose) * 64 + P.gen * 16 + P.failed * 8 + P.exited * 4 + P.failures;
	mc_state(mc_hash(5, &P, sizeof(P)));
	mc_transition(1);
	mc_nontrivial(mc_hash((uint64_t)i, &P, sizeof(P)));
}

/* ------------------------------------------------------------- flock() */
static int lk[2], cur_p, blocked, lk_errno; /* per process: 0 none, 1 shared, 2 exclusive */
static int conflict(int p, int want) { return want && lk[!p] && (want == 2 || lk[!p] == 2); }
int
cm_fcntl(int fd, int cmd, ...)
{
	va_list ap;
	struct flock *fl;
	int want;

	va_start(ap, cmd);
	fl = va_arg(ap, struct flock *);
	va_end(ap);
	mc_transition(1);
	if (fd != 5 || (cmd != F_SETLK && cmd != F_SETLKW))
		mc_fail("fcntl(%d, %d)", fd, cmd);
	if (fl->l_whence != SEEK_SET || fl->l_start != 0 || fl->l_len != 0)
		mc_fail("not the whole file is locked");
	want = fl->l_type == F_RDLCK ? 1 : fl->l_type == F_WRLCK ? 2 : 0;
	if (lk_errno) { errno = lk_errno; return -1; }
	if (conflict(cur_p, want)) {
		if (cmd == F_SETLKW) { blocked = 1; errno = EINTR; return -1; }
		errno = EAGAIN;
		return -1;
	}
	lk[cur_p] = want;
	return 0;
}
int
cm_fcntl64(int fd, int cmd, ...)
{
	va_list ap;
	void *p;

	va_start(ap, cmd);
	p = va_arg(ap, void *);
	va_end(ap);
	return cm_fcntl(fd, cmd, p);
}
static void
sc_flock(void *arg)
{
	static const int ops[] = { LOCK_SH, LOCK_EX, LOCK_UN, LOCK_SH | LOCK_NB, LOCK_EX | LOCK_NB, LOCK_UN | LOCK_NB, 0, LOCK_NB, LOCK_SH | LOCK_EX, LOCK_EX | LOCK_UN | LOCK_NB };
	int n = mc_tier_thorough() ? 5 : 4, i;

	(void)arg;
	lk[0] = lk[1] = 0;
	for (i = 0; i < n; i++) {
		int p = mc_choose_free(2, "process"), k = mc_choose_free(NEL(ops), "operation"), o = ops[k], before[2] = { lk[0], lk[1] }, r, e;
		int want = o & LOCK_SH ? 1 : o & LOCK_EX ? 2 : 0, valid = k < 6;

		lk_errno = valid && i == n - 1 ? mc_choose_free(3, "error") : 0;
		lk_errno = lk_errno == 1 ? ENOLCK : lk_errno == 2 ? EBADF : 0;
		cur_p = p;
		blocked = 0;
		errno = 0;
		r = x_flock(5, o);
		e = errno;
		if (!valid) {
			if (r != -1 || e != EINVAL || lk[0] != before[0] || lk[1] != before[1])
				mc_fail("flock(%d) returns %d (errno %d)", o, r, e);
			continue;
		}
		if (lk_errno) {
			if (r != -1 || e != lk_errno)
				mc_fail("flock(%d) returns %d (errno %d), the error was %d", o, r, e, lk_errno);
			continue;
		}
		if (conflict(p, want)) {
			if (o & LOCK_NB) {
				if (r != -1 || e != EWOULDBLOCK || blocked)
					mc_fail("flock(%d) returns %d (errno %d) although another process holds the lock", o, r, e);
			} else if (!blocked)
				mc_fail("flock(%d) doesn't wait although another process holds the lock", o);
			else
				return; /* waits */
			if (lk[0] != before[0] || lk[1] != before[1])
				mc_fail("flock(%d) failed, but changed a lock", o);
		} else if (r != 0 || lk[p] != want || lk[!p] != before[!p] || blocked)
			mc_fail("flock(%d) returns %d (errno %d), the lock is %d", o, r, e, lk[p]);
		mc_state((uint64_t)(lk[0] * 3 + lk[1]));
	}
	mc_nontrivial((uint64_t)(lk[0] * 3 + lk[1]));
}

static mc_scenario SCN[] = {
	{ "printf", "C33", sc_printf, A(0), 0, 0 },
	{ "format", "C33", sc_format, A(0), 0, 0 },
	{ "strcase", "C33", sc_strcase, A(0), 0, 0 },
	{ "progname", "C33", sc_progname, A(0), 0, 0 },
	{ "daemon", "C33", sc_daemon, A(0), 0, 0 },
	{ "flock", "C33", sc_flock, A(0), 0, 0 },
};

int main(int argc, char **argv) { return mc_main(argc, argv, SCN, NEL(SCN)); }
