#define _GNU_SOURCE
#include "mc.h"
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#define MAXC 700
#define MAXW 64
#define FRONTIER (1u << 19)
#define HSET (1u << 23)
#define NTSET (1u << 20)

typedef struct { uint16_t len; int16_t used; uint32_t sum; uint8_t c[MAXC]; } prefix;

typedef struct {
	pid_t pid;
	volatile int busy;               /* currently executing */
	prefix cur;                      /* choices of current execution */
	uint16_t ncur;
	char msg[4096];
	volatile int failed;
	struct timespec t0;
} wslot;

typedef struct {
	pthread_mutex_t lock;
	volatile unsigned top;
	volatile unsigned active;        /* executions in progress */
	volatile int stop;
	volatile int overflow;
	unsigned long execs, transitions, choices, states, nontriv, abandoned;
	unsigned long diverged;          /* replayed prefixes which met other choice points */
	unsigned long maxdepth;
	int nsamples;
	char samples[12][400];
	wslot w[MAXW];
	uint64_t hset[HSET];
	uint64_t ntset[NTSET];
	prefix fr[FRONTIER];
} shared;

static shared *S;
static int W = -1;                       /* my worker index */
static mc_scenario *SC;
static int budget, thorough;
static int replaying, verbose;
static prefix rp;                        /* prefix to replay */
static uint8_t cur_n[MAXC], cur_cost[MAXC], cur_c[MAXC];
static const char *cur_label[MAXC];
static uint32_t cur_sum[MAXC];           /* identifies the choice points so far */
static int ncur;
int mc_dev_left;
static int used;
jmp_buf mc_jmp;
int mc_in_exec;
static unsigned long recycle = 3000;
static double exec_limit = 15.0;

int mc_replaying(void) { return replaying; }
int mc_tier_thorough(void) { return thorough; }
int mc_worker(void) { return W; }

uint64_t
mc_hash(uint64_t h, const void *p, size_t n)
{
	const unsigned char *b = p;

	h ^= 0x9e3779b97f4a7c15ULL + n;
	while (n--) {
		h ^= *b++;
		h *= 0x100000001b3ULL;
		h ^= h >> 29;
	}
	return h ? h : 1;
}

static int
set_add(uint64_t *set, uint64_t size, uint64_t h)
{
	uint64_t i = (h * 0x9e3779b97f4a7c15ULL) & (size - 1);
	int probes = 0;

	while (probes++ < 64) {
		uint64_t v = __atomic_load_n(&set[i], __ATOMIC_RELAXED);

		if (v == h)
			return 0;
		if (v == 0) {
			uint64_t z = 0;

			if (__atomic_compare_exchange_n(&set[i], &z, h, 0,
			    __ATOMIC_RELAXED, __ATOMIC_RELAXED))
				return 1;
			if (z == h)
				return 0;
		}
		i = (i + 1) & (size - 1);
	}
	return 0;
}

void
mc_state(uint64_t h)
{
	if (h == 0)
		h = 1;
	if (set_add(S->hset, HSET, h))
		__atomic_add_fetch(&S->states, 1, __ATOMIC_RELAXED);
}

void
mc_nontrivial(uint64_t h)
{
	if (h == 0)
		h = 1;
	if (set_add(S->ntset, NTSET, h))
		__atomic_add_fetch(&S->nontriv, 1, __ATOMIC_RELAXED);
}

void
mc_transition(int n)
{
	__atomic_add_fetch(&S->transitions, (unsigned long)n, __ATOMIC_RELAXED);
}

void
mc_sample(const char *fmt, ...)
{
	va_list ap;
	int i;

	if (S->nsamples >= 12)
		return;
	if ((S->execs & (S->execs - 1)) != 0 && S->nsamples > 2)
		return; /* spread them over the run: powers of two */
	i = __atomic_fetch_add(&S->nsamples, 1, __ATOMIC_RELAXED);
	if (i >= 12) {
		S->nsamples = 12;
		return;
	}
	va_start(ap, fmt);
	(void)vsnprintf(S->samples[i], sizeof(S->samples[i]), fmt, ap);
	va_end(ap);
}

void
mc_note(const char *fmt, ...)
{
	va_list ap;

	if (!verbose)
		return;
	va_start(ap, fmt);
	(void)fprintf(stdout, "  ");
	(void)vfprintf(stdout, fmt, ap);
	(void)fprintf(stdout, "\n");
	(void)fflush(stdout);
	va_end(ap);
}

void
mc_abandon(void)
{
	__atomic_add_fetch(&S->abandoned, 1, __ATOMIC_RELAXED);
	longjmp(mc_jmp, 2);
}

void
mc_fail(const char *fmt, ...)
{
	va_list ap;
	wslot *w = &S->w[W];

	if (w->failed)
		longjmp(mc_jmp, 3);
	va_start(ap, fmt);
	(void)vsnprintf(w->msg, sizeof(w->msg), fmt, ap);
	va_end(ap);
	w->failed = 1;
	longjmp(mc_jmp, 3);
}

int
mc_choose_cost(int n, int cost, const char *label)
{
	int c = 0;

	if (!mc_in_exec)
		return 0;
	if (n <= 1)
		return 0;
	if (ncur >= MAXC) {
		if (getenv("MC_OVERFLOW_OK") == NULL)
			mc_fail("the run doesn't come to an end (%d decisions)", MAXC);
		S->overflow = 2;
		mc_abandon();
	}
	if (n > 255)
		n = 255;
	if (ncur < rp.len) {
		c = rp.c[ncur];
		if (c >= n) /* only when replaying against changed code */
			c = 0;
	}
	cur_n[ncur] = (uint8_t)n;
	cur_cost[ncur] = (uint8_t)cost;
	cur_c[ncur] = (uint8_t)c;
	cur_label[ncur] = label;
	cur_sum[ncur] = (ncur > 0 ? cur_sum[ncur - 1] : 0) * 16777619u + (uint32_t)n * 31 + (uint32_t)cost;
	for (const char *l = label; *l != '\0'; l++)
		cur_sum[ncur] = cur_sum[ncur] * 31 + (unsigned char)*l;
	if (!verbose && rp.sum != 0 && ncur + 1 == rp.len && cur_sum[ncur] != rp.sum)
		__atomic_add_fetch(&S->diverged, 1, __ATOMIC_RELAXED);
	S->w[W].cur.c[ncur] = (uint8_t)c;
	ncur++;
	S->w[W].ncur = (uint16_t)ncur;
	if (c != 0) {
		used += cost;
		mc_dev_left -= cost;
	}
	if (verbose)
		mc_note("choice #%d %s: %d of %d%s", ncur, label, c, n,
		    c != 0 ? "   <==" : "");
	return c;
}

int mc_choose(int n, const char *label) { return mc_choose_cost(n, 1, label); }
int mc_choose_free(int n, const char *label) { return mc_choose_cost(n, 0, label); }

/* --------------------------------------------------------------- workers */

static void
lock(void)
{
	int r = pthread_mutex_lock(&S->lock);

	if (r == EOWNERDEAD)
		pthread_mutex_consistent(&S->lock);
}

static void unlock(void) { pthread_mutex_unlock(&S->lock); }

static void
on_hang(int sig)
{
	static const char m[] = "execution hangs: no progress (CPU-bound loop or blocking call)";
	wslot *w = &S->w[W];

	(void)sig;
	memcpy(w->msg, m, sizeof(m));
	w->failed = 2;
	_exit(99);
}

/* ASAN calls this with the report text. */
extern void __asan_set_error_report_callback(void (*)(const char *)) __attribute__((weak));
static void
asan_report(const char *text)
{
	wslot *w = &S->w[W];
	const char *p = strstr(text, "ERROR: ");
	size_t n;

	if (W < 0)
		return;
	if (p == NULL)
		p = text;
	n = strlen(p);
	if (n > sizeof(w->msg) - 1)
		n = sizeof(w->msg) - 1;
	memcpy(w->msg, p, n);
	w->msg[n] = '\0';
	w->failed = 2;
}

static int
run_once(const prefix *p)
{
	int r;
	struct itimerval it = { { 0, 0 }, { (long)exec_limit, 0 } };

	rp = *p;
	ncur = 0;
	used = 0;
	mc_dev_left = budget;
	S->w[W].ncur = 0;
	S->w[W].failed = 0;
	S->w[W].busy = 1;
	setitimer(ITIMER_REAL, &it, NULL);
	r = setjmp(mc_jmp);
	if (r == 0) {
		mc_in_exec = 1;
		SC->run(SC->arg);
	}
	mc_in_exec = 0;
	it.it_value.tv_sec = 0;
	setitimer(ITIMER_REAL, &it, NULL);
	S->w[W].busy = 0;
	return S->w[W].failed;
}

static void
expand(const prefix *p)
{
	int i, a, u = 0;

	__atomic_add_fetch(&S->choices, (unsigned long)ncur, __ATOMIC_RELAXED);
	if ((unsigned long)ncur > S->maxdepth)
		S->maxdepth = (unsigned long)ncur;
	for (i = 0; i < p->len && i < ncur; i++)
		if (cur_c[i] != 0)
			u += cur_cost[i];
	lock();
	for (i = p->len; i < ncur; i++) {
		/* choices after the prefix are all default */
		if (u + cur_cost[i] > budget)
			continue;
		for (a = cur_n[i] - 1; a >= 1; a--) {
			prefix *q;

			if (S->top >= FRONTIER) {
				S->overflow = 1;
				continue;
			}
			q = &S->fr[S->top++];
			q->len = (uint16_t)(i + 1);
			q->sum = cur_sum[i];
			memcpy(q->c, cur_c, (size_t)i);
			q->c[i] = (uint8_t)a;
		}
	}
	unlock();
}

static void
worker(int idx)
{
	unsigned long n = 0;

	W = idx;
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	signal(SIGALRM, on_hang);
	if (__asan_set_error_report_callback)
		__asan_set_error_report_callback(asan_report);
	if (!verbose) {
		int fd = open("/dev/null", O_RDWR);

		dup2(fd, 2);
	}
	if (SC->init)
		SC->init(SC->arg);
	for (;;) {
		prefix p;
		int got = 0, idle = 0;

		lock();
		if (S->top > 0 && !S->stop) {
			p.len = S->fr[S->top - 1].len;
			p.sum = S->fr[S->top - 1].sum;
			memcpy(p.c, S->fr[S->top - 1].c, p.len);
			S->top--;
			S->active++;
			got = 1;
		} else if (S->active == 0 || S->stop)
			idle = 1;
		unlock();
		if (idle)
			_exit(0);
		if (!got) {
			struct timespec ts = { 0, 200000 };

			nanosleep(&ts, NULL);
			continue;
		}
		S->w[W].cur.len = p.len;
		if (run_once(&p)) {
			S->w[W].failed = 3;
			_exit(98);
		}
		__atomic_add_fetch(&S->execs, 1, __ATOMIC_RELAXED);
		if (ncur < p.len)
			__atomic_add_fetch(&S->diverged, 1, __ATOMIC_RELAXED);
		expand(&p);
		lock();
		S->active--;
		unlock();
		if (SC->fresh || ++n >= recycle)
			_exit(97); /* please fork a new one */
	}
}

static double
now(void)
{
	struct timespec t;

	clock_gettime(CLOCK_MONOTONIC, &t);
	return (double)t.tv_sec + (double)t.tv_nsec * 1e-9;
}

static void
spawn(int i)
{
	pid_t pid;

	fflush(NULL);
	S->w[i].failed = 0;
	S->w[i].busy = 0;
	S->w[i].ncur = 0;
	pid = fork();
	if (pid == 0) {
		worker(i);
		_exit(0);
	}
	S->w[i].pid = pid;
}

/* Runs one choice sequence in a fresh child; returns its failure code. */
static int
replay_child(const prefix *p, int loud, char *msg, size_t n)
{
	pid_t pid;
	int st;

	fflush(NULL);
	S->w[0].failed = 0;
	S->w[0].msg[0] = '\0';
	pid = fork();
	if (pid == 0) {
		W = 0;
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		signal(SIGALRM, on_hang);
		replaying = 1;
		verbose = loud;
		if (__asan_set_error_report_callback)
			__asan_set_error_report_callback(asan_report);
		if (!loud) {
			int fd = open("/dev/null", O_RDWR);

			dup2(fd, 2);
		}
		if (SC->init)
			SC->init(SC->arg);
		run_once(p);
		_exit(S->w[0].failed ? 98 : 0);
	}
	while (waitpid(pid, &st, 0) == -1 && errno == EINTR)
		continue;
	if (st != 0 && S->w[0].failed == 0) {
		snprintf(S->w[0].msg, sizeof(S->w[0].msg),
		    "the process died (wait status 0x%x)", st);
		S->w[0].failed = 2;
	}
	snprintf(msg, n, "%s", S->w[0].msg);
	return S->w[0].failed;
}

static void
json_str(FILE *f, const char *s)
{
	fputc('"', f);
	for (; *s; s++) {
		unsigned char ch = (unsigned char)*s;

		if (ch == '"' || ch == '\\')
			fprintf(f, "\\%c", ch);
		else if (ch < 32 || ch > 126)
			fprintf(f, "\\u%04x", ch);
		else
			fputc(ch, f);
	}
	fputc('"', f);
}

static int
has_word(const char *list, const char *w)
{
	size_t n = strlen(w);
	const char *p = list;

	while ((p = strstr(p, w)) != NULL) {
		if ((p == list || p[-1] == ' ') && (p[n] == ' ' || p[n] == '\0'))
			return 1;
		p += n;
	}
	return 0;
}

int
mc_main(int argc, char **argv, mc_scenario *sc, int n_sc)
{
	const char *prop = NULL, *only = NULL, *replay = NULL, *out = NULL;
	int i, j, jobs = 8, dev = -1, list = 0, rc = 0, stopfirst = 0;
	double limit = 600.0, start = now();
	pthread_mutexattr_t ma;
	FILE *jf = NULL;
	int first = 1;

	for (i = 1; i < argc; i++) {
		if (!strcmp(argv[i], "--prop")) prop = argv[++i];
		else if (!strcmp(argv[i], "--scenario")) only = argv[++i];
		else if (!strcmp(argv[i], "--replay")) replay = argv[++i];
		else if (!strcmp(argv[i], "--jobs")) jobs = atoi(argv[++i]);
		else if (!strcmp(argv[i], "--dev")) dev = atoi(argv[++i]);
		else if (!strcmp(argv[i], "--thorough")) thorough = 1;
		else if (!strcmp(argv[i], "--limit")) limit = atof(argv[++i]);
		else if (!strcmp(argv[i], "--out")) out = argv[++i];
		else if (!strcmp(argv[i], "--first")) stopfirst = 1;
		else if (!strcmp(argv[i], "--list")) list = 1;
		else { fprintf(stderr, "bad option %s\n", argv[i]); return 2; }
	}
	if (jobs > MAXW)
		jobs = MAXW;
	if (list) {
		for (i = 0; i < n_sc; i++)
			printf("%-40s %s q=%d t=%d\n", sc[i].name, sc[i].props,
			    sc[i].quick_dev, sc[i].thorough_dev);
		return 0;
	}
	S = mmap(NULL, sizeof(*S), PROT_READ | PROT_WRITE,
	    MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (S == MAP_FAILED) { perror("mmap"); return 2; }
	pthread_mutexattr_init(&ma);
	pthread_mutexattr_setpshared(&ma, PTHREAD_PROCESS_SHARED);
	pthread_mutexattr_setrobust(&ma, PTHREAD_MUTEX_ROBUST);
	pthread_mutex_init(&S->lock, &ma);

	if (replay != NULL) {
		prefix p;
		char msg[4096];
		const char *s = replay;

		p.len = 0;
		p.sum = 0;
		while (*s && p.len < MAXC) {
			p.c[p.len++] = (uint8_t)strtol(s, (char **)&s, 10);
			if (*s == ',' || *s == ' ')
				s++;
			else
				break;
		}
		for (i = 0; i < n_sc; i++)
			if (only && !strcmp(sc[i].name, only))
				break;
		if (i == n_sc) { fprintf(stderr, "no such scenario\n"); return 2; }
		SC = &sc[i];
		budget = 1000;
		i = replay_child(&p, 1, msg, sizeof(msg));
		printf("%s: %s\n", i ? "FAILED" : "ok", msg);
		return i ? 1 : 0;
	}

	if (out != NULL && (jf = fopen(out, "w")) == NULL) { perror(out); return 2; }
	if (jf) fprintf(jf, "{\"scenarios\":[\n");

	for (i = 0; i < n_sc; i++) {
		double t0, el, left;
		int bd = thorough ? sc[i].thorough_dev : sc[i].quick_dev;
		int complete, failed = 0, timed_out = 0;
		char fmsg[4096] = "";
		prefix fp;

		if (only && strcmp(sc[i].name, only))
			continue;
		if (prop && !has_word(sc[i].props, prop))
			continue;
		if (bd < 0 && !only)
			continue;
		if (bd < 0)
			bd = 0;
		if (dev >= 0)
			bd = dev;
		SC = &sc[i];
		budget = bd;
		left = limit - (now() - start);
		if (left < 1.0)
			left = 1.0;
		/* reset shared state */
		S->top = 1; S->active = 0; S->stop = 0; S->overflow = 0;
		S->execs = S->transitions = S->choices = S->states = S->nontriv = S->abandoned = S->diverged = 0;
		S->maxdepth = 0; S->nsamples = 0;
		S->fr[0].len = 0;
		S->fr[0].sum = 0;
		madvise(S->hset, sizeof(S->hset), MADV_REMOVE);
		madvise(S->ntset, sizeof(S->ntset), MADV_REMOVE);
		t0 = now();
		{
			/* a first execution alone: cheap failure detection */
			prefix p0; char m[4096];
			int f;
			p0.len = 0;
			p0.sum = 0;
			f = replay_child(&p0, 0, m, sizeof(m));
			if (f) {
				failed = f; fp = p0;
				fp.len = S->w[0].ncur;
				memcpy(fp.c, S->w[0].cur.c, fp.len);
				snprintf(fmsg, sizeof(fmsg), "%s", m);
			}
		}
		if (!failed) {
			int alive = 0;

			for (j = 0; j < jobs; j++) { spawn(j); alive++; }
			while (alive > 0) {
				int st;
				pid_t pid = waitpid(-1, &st, WNOHANG);

				if (pid <= 0) {
					struct timespec ts = { 0, 2000000 };

					nanosleep(&ts, NULL);
					if (now() - t0 > left && !S->stop) {
						S->stop = 1;
						timed_out = 1;
					}
					continue;
				}
				for (j = 0; j < jobs && S->w[j].pid != pid; j++)
					continue;
				if (j == jobs)
					continue;
				alive--;
				if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
					continue;
				if (WIFEXITED(st) && WEXITSTATUS(st) == 97) {
					spawn(j);
					alive++;
					continue;
				}
				/* failure: crash or reported violation */
				if (S->w[j].failed == 0)
					snprintf(S->w[j].msg, sizeof(S->w[j].msg),
					    "the process died (wait status 0x%x)", st);
				if (!failed) {
					failed = 1;
					fp.len = S->w[j].ncur;
					fp.sum = 0;
					memcpy(fp.c, S->w[j].cur.c, fp.len);
					snprintf(fmsg, sizeof(fmsg), "%s", S->w[j].msg);
				}
				S->stop = 1;
				S->active = 0;
			}
		}
		el = now() - t0;
		complete = !failed && !timed_out && !S->overflow && S->top == 0;

		if (failed) {
			char m2[4096];
			int k, rep = 0;
			prefix tp = fp;

			for (k = 0; k < 2; k++)
				if (replay_child(&tp, 0, m2, sizeof(m2)))
					rep++;
			if (rep == 2) {
				/* minimise: try to reset each non-default choice */
				int changed = 1, tries = 0;
				double tm = now();
				snprintf(fmsg, sizeof(fmsg), "%s", m2);
				while (changed && tries < 400 && now() - tm < 20) {
					changed = 0;
					for (k = (int)tp.len - 1; k >= 0 && tries < 400 && now() - tm < 20; k--) {
						prefix t2 = tp;
						if (t2.c[k] == 0)
							continue;
						t2.c[k] = 0;
						tries++;
						if (replay_child(&t2, 0, m2, sizeof(m2)) &&
						    !strncmp(m2, fmsg, 24)) {
							tp = t2;
							snprintf(fmsg, sizeof(fmsg), "%s", m2);
							changed = 1;
						}
					}
					while (tp.len > 0 && tp.c[tp.len - 1] == 0)
						tp.len--;
				}
				fp = tp;
				rc = 1;
			} else
				printf("NOTE: scenario %s: failure not reproducible, not reported: %s\n",
				    sc[i].name, fmsg);
			if (rep != 2)
				failed = 0;
		}
		printf("scenario %s: dev<=%d executions=%lu states=%lu transitions=%lu choices=%lu maxdepth=%lu %s%s %.1fs\n",
		    sc[i].name, bd, S->execs, S->states, S->transitions,
		    S->choices, S->maxdepth,
		    failed ? "FAILED" : complete ? "complete" : timed_out ? "TIME LIMIT" : "OVERFLOW",
		    S->diverged ? " (DIVERGED)" : "", el);
		fflush(stdout);
		if (failed) {
			printf("FAIL scenario=%s choices=", sc[i].name);
			for (j = 0; j < fp.len; j++)
				printf("%s%d", j ? "," : "", fp.c[j]);
			printf("\n%s\n", fmsg);
			fflush(stdout);
		}
		if (jf) {
			if (!first) fprintf(jf, ",\n");
			first = 0;
			fprintf(jf, "{\"name\":\"%s\",\"dev\":%d,\"executions\":%lu,\"states\":%lu,"
			    "\"transitions\":%lu,\"choices\":%lu,\"nontrivial\":%lu,\"maxdepth\":%lu,"
			    "\"complete\":%s,\"diverged\":%lu,\"failed\":%s,\"wall\":%.3f,\"message\":",
			    sc[i].name, bd, S->execs, S->states, S->transitions, S->choices,
			    S->nontriv, S->maxdepth, complete ? "true" : "false", S->diverged,
			    failed ? "true" : "false", el);
			json_str(jf, failed ? fmsg : "");
			fprintf(jf, ",\"choices_seq\":\"");
			if (failed)
				for (j = 0; j < fp.len; j++)
					fprintf(jf, "%s%d", j ? "," : "", fp.c[j]);
			fprintf(jf, "\",\"samples\":[");
			for (j = 0; j < S->nsamples && j < 12; j++) {
				if (j) fprintf(jf, ",");
				json_str(jf, S->samples[j]);
			}
			fprintf(jf, "]}");
			fflush(jf);
		}
		if (failed && stopfirst)
			break;
	}
	if (jf) { fprintf(jf, "\n]}\n"); fclose(jf); }
	return rc;
}
