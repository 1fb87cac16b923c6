#define _GNU_SOURCE
#include "srv.h"
#include <errno.h>
#include <limits.h>
#include <regex.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <unistd.h>

client CL[MAXCONN];
int NCL;
sconf SCONF;
int srv_may_refuse, srv_lossy, srv_expect_timeouts, srv_no_delivery, srv_unordered, srv_ran, srv_how;
double srv_settle, srv_nagios_start;
size_t srv_may_overflow;
int (*srv_more_events)(envevent *, int);
int (*srv_more_apply)(const envevent *);
void (*srv_more_step)(void);
void (*srv_on_quiescent)(void);
void (*srv_final)(void);
const char *srv_argv[24];
int srv_argc;
char srv_conf_path[300];
command CMD[800];
int NCMD;
static double t_last_event;
static int n_fw_checked;
extern int repo_main(int, char **);

/* ------------------------------------------------------------- config */
static const char *
confdir(void)
{
	static char d[200];
	const char *t = getenv("MC_TMP");

	snprintf(d, sizeof(d), "%s", t ? t : "/tmp");
	return d;
}

static void
plist(FILE *f, const char *name, const char *const *v)
{
	int i, j;

	if (v[0] == NULL)
		return;
	fprintf(f, "  %s = {", name);
	for (i = 0; v[i]; i++) {
		fprintf(f, "%s\"", i ? ", " : "");
		for (j = 0; v[i][j]; j++) {
			if (v[i][j] == '"' || v[i][j] == '\\')
				fputc('\\', f);
			fputc(v[i][j], f);
		}
		fprintf(f, "\"");
	}
	fprintf(f, "}\n");
}

void
srv_write_conf(void)
{
	FILE *f;
	int i;

	snprintf(srv_conf_path, sizeof(srv_conf_path), "%s/mc-%d.cfg", confdir(), mc_worker() < 0 ? 0 : mc_worker());
	f = fopen(srv_conf_path, "w");
	if (f == NULL)
		mc_fail("harness: cannot write %s", srv_conf_path);
	if (SCONF.raw)
		fputs(SCONF.raw, f);
	else {
		fprintf(f, "command_file = \"" SIM_FIFO "\"\ntemp_directory = \"" SIM_TMP "\"\n");
		fprintf(f, "listen = \"127.0.0.1\"\n");
		if (SCONF.timeout >= 0)
			fprintf(f, "timeout = %.1f\n", SCONF.timeout);
		if (SCONF.maxcmd >= 0)
			fprintf(f, "max_command_size = %ld\n", SCONF.maxcmd);
		if (SCONF.maxq >= 0)
			fprintf(f, "max_queue_size = %ld\n", SCONF.maxq);
		if (SCONF.pidfile)
			fprintf(f, "pid_file = \"/sim/nsca.pid\"\n");
		if (SCONF.extra)
			fputs(SCONF.extra, f);
		for (i = 0; i < 6 && SCONF.u[i].id; i++) {
			fprintf(f, "authorize \"%s\" {\n  password = \"%s\"\n", SCONF.u[i].id, SCONF.u[i].pw);
			plist(f, "commands", SCONF.u[i].cmds);
			plist(f, "hosts", SCONF.u[i].hosts);
			plist(f, "services", SCONF.u[i].svcs);
			fprintf(f, "}\n");
		}
	}
	fclose(f);
}

/* ------------------------------------------------------ authorization */
/* The documented meaning, written independently of the code under test. */
static int
full_match(const char *pat, const char *s)
{
	static struct { char *pat; regex_t re; int bad; } cache[64];
	static int n;
	int i;

	for (i = 0; i < n; i++)
		if (!strcmp(cache[i].pat, pat))
			break;
	if (i == n) {
		char *a;

		if (n == 64)
			mc_fail("harness: too many patterns");
		cache[n].pat = strdup(pat);
		if (asprintf(&a, "^(%s)$", pat) < 0)
			abort();
		cache[n].bad = regcomp(&cache[n].re, a, REG_EXTENDED | REG_NOSUB) != 0;
		free(a);
		n++;
	}
	return !cache[i].bad && regexec(&cache[i].re, s, 0, NULL, 0) == 0;
}

/* The anchors are implicit, it's undefined what further ones mean. */
static int
unusual_anchors(const char *p)
{
	for (; *p; p++)
		if (*p == '\\' && p[1])
			p++;
		else if (*p == '[' && p[1] == '^')
			p++;
		else if (*p == '^' || *p == '$')
			return 1;
	return 0;
}

/* Is this a result the user may submit, field by field?  Returns 2 if so, 1 if it's malformed but for such a host or service. */
static int
result_matches(const char *pat, const char *s, int service)
{
	static const char *const names[] = { "PROCESS_HOST_CHECK_RESULT;", "PROCESS_SERVICE_CHECK_RESULT;" };
	size_t l = strlen(names[service]), n;
	char *host, *svc = NULL, *p, *at;
	int r = 2;

	if (strncmp(s, names[service], l))
		return 0;
	s += l;
	n = strcspn(s, ";");
	if (s[n] == '\0')
		return 0;
	host = strndup(s, n);
	s += n + 1;
	if (service) {
		n = strcspn(s, ";");
		if (s[n] == '\0') {
			free(host);
			return 0;
		}
		svc = strndup(s, n);
		s += n + 1;
		n = strcspn(s, ";");
		if (n == 0 || s[n] == '\0' || s[n + 1] == '\0' || s[n + 1] == '\n')
			r = 1;
		p = strdup(pat);
		at = strrchr(p, '@');
		if (at) *at++ = '\0';
		if (!full_match(p, svc) || (at && !full_match(at, host)))
			r = 0;
		else if (*host == '\0')
			r = 1;
		free(p);
	} else {
		if (*s == '\0' || *s == '\n')
			r = 1;
		if (!full_match(pat, host))
			r = 0;
	}
	if (r == 2 && unusual_anchors(pat))
		r = 1;
	free(host);
	free(svc);
	return r;
}

static int
user_matches(const user *u, const char *s)
{
	int i, r, best = 0;

	for (i = 0; i < 10 && u->cmds[i]; i++)
		if (full_match(u->cmds[i], s))
			return 2;
	for (i = 0; i < 10 && u->hosts[i]; i++)
		if ((r = result_matches(u->hosts[i], s, 0)) > best)
			best = r;
	for (i = 0; i < 10 && u->svcs[i]; i++)
		if ((r = result_matches(u->svcs[i], s, 1)) > best)
			best = r;
	return best;
}

/* returns: must be accepted; *may: accepting it is no violation */
int
srv_authorized(const char *id, const char *cmd, size_t n, int *may)
{
	const user *u = NULL;
	char *s;
	size_t i;
	int r;

	*may = 0;
	for (i = 0; i < 6 && SCONF.u[i].id; i++)
		if (!strcmp(SCONF.u[i].id, id))
			u = &SCONF.u[i];
	if (u == NULL)
		for (i = 0; i < 6 && SCONF.u[i].id; i++)
			if (!strcmp(SCONF.u[i].id, "*"))
				u = &SCONF.u[i];
	if (u == NULL || n == 0)
		return 0;
	if (memchr(cmd, 0, n) || memchr(cmd, '\n', n) != cmd + n - 1)
		return 0;
	if (cmd[0] != '[')
		return 0;
	s = malloc(n + 1);
	memcpy(s, cmd, n);
	s[n] = '\0';
	{
		char *p = strchr(s, ']');

		if (p == NULL) { free(s); return 0; }
		p++;
		while (*p == ' ' || *p == '\t')
			p++;
		*may = user_matches(u, p) > 0;  /* including the newline */
		s[n - 1] = '\0';
		r = user_matches(u, p);
		if (r)
			*may = 1;
		r = r == 2;
	}
	free(s);
	return r;
}

/* ----------------------------------------------------------- scripts */
void
srv_reset(void)
{
	int i, j;

	sim_reset();
	for (i = 0; i < NCL; i++) {
		for (j = 0; j < CL[i].nst; j++)
			free(CL[i].st[j].p);
		sb_free(&CL[i].sent);
	}
	memset(CL, 0, sizeof(CL[0]) * (size_t)NCL);
	NCL = 0;
	for (i = 0; i < NCMD; i++)
		free(CMD[i].p);
	memset(CMD, 0, sizeof(CMD[0]) * (size_t)NCMD);
	NCMD = 0;
	memset(&SCONF, 0, sizeof(SCONF));
	SCONF.timeout = SCONF.maxcmd = SCONF.maxq = -1;
#if defined(NOAIO)
	SCONF.loglevel = 0;
#elif defined(REALSSL)
	SCONF.loglevel = 3;
#else
	SCONF.loglevel = 5;
#endif
	srv_may_refuse = srv_lossy = srv_expect_timeouts = srv_no_delivery = srv_unordered = srv_ran = 0;
	srv_settle = 25;
	srv_may_overflow = 0;
	srv_nagios_start = 0;
	srv_more_events = NULL;
	srv_more_apply = NULL;
	srv_more_step = NULL;
	srv_on_quiescent = NULL;
	srv_final = NULL;
	srv_argc = 0;
	n_fw_checked = 0;
	t_last_event = sim_now();
}

client *
cl_new(const char *id, const char *psk)
{
	client *c = &CL[NCL++];

	if (NCL > MAXCONN)
		mc_fail("harness: too many clients");
	snprintf(c->id, sizeof(c->id), "%s", id);
	snprintf(c->psk, sizeof(c->psk), "%s", psk);
	c->c = sim_new_conn();
	c->c->user = c;
	return c;
}
static step *
add(client *c, stkind k, int await)
{
	step *s = &c->st[c->nst++];

	if (c->nst > MAXST)
		mc_fail("harness: script too long");
	memset(s, 0, sizeof(*s));
	s->k = k;
	s->await = await;
	return s;
}
void cl_step(client *c, stkind k, int await) { add(c, k, await); }
void cl_conn(client *c) { add(c, ST_CONN, 0); }
void
cl_send(client *c, int await, const void *p, size_t n)
{
	step *s = add(c, ST_DATA, await);

	s->p = malloc(n + 1);
	memcpy(s->p, p, n);
	s->p[n] = '\0';
	s->n = n;
}
void
cl_sends(client *c, int await, const char *fmt, ...)
{
	char b[6000];
	va_list ap;
	int n;

	va_start(ap, fmt);
	n = vsnprintf(b, sizeof(b), fmt, ap);
	va_end(ap);
	cl_send(c, await, b, (size_t)n);
}
void
cl_moin(client *c)
{
	cl_sends(c, c->lines_planned, "MOIN 1 sess%d\r\n", (int)(c - CL));
	c->lines_planned++;
}
void
cl_push(client *c, const char *cmd, size_t n)
{
	cl_sends(c, c->lines_planned, "PUSH %zu\r\n", n);
	c->lines_planned++;
	cl_send(c, c->lines_planned, cmd, n);
	c->lines_planned++;
}
void
cl_pushs(client *c, const char *fmt, ...)
{
	char b[6000];
	va_list ap;
	int n;

	va_start(ap, fmt);
	n = vsnprintf(b, sizeof(b), fmt, ap);
	va_end(ap);
	cl_push(c, b, (size_t)n);
}
void
cl_quit(client *c)
{
	cl_sends(c, c->lines_planned, "QUIT\r\n");
	c->lines_planned++;
}
void
cl_close(client *c)
{
	step *s = add(c, ST_CN, c->lines_planned);

	s->await_cn = 1;
}
char *
mkcmd(const char *prefix, char fill, size_t total, size_t *n)
{
	size_t l = strlen(prefix), i;
	char *p;

	if (total < l + 1)
		total = l + 1;
	p = malloc(total + 1);
	memcpy(p, prefix, l);
	for (i = l; i < total; i++) /* every part looks different */
		p[i] = i % 2 ? fill : "0123456789abcdefghijklmnopqrstuvwxyzABC"[(i / 2 + i / 64 + i / 4096 * 5) % 39];
	p[total - 1] = '\n';
	p[total] = '\0';
	*n = total;
	return p;
}
/* Splits step number `at' (a data step) into records at the given offsets. */
void
cl_split(client *c, int at, const size_t *cuts, int ncuts)
{
	step o = c->st[at];
	int i, m = 0;
	size_t from = 0;
	step parts[64];

	for (i = 0; i <= ncuts; i++) {
		size_t to = i < ncuts ? cuts[i] : o.n;

		if (to <= from || to > o.n)
			continue;
		memset(&parts[m], 0, sizeof(parts[m]));
		parts[m].k = ST_DATA;
		parts[m].await = m == 0 ? o.await : 0;
		parts[m].p = malloc(to - from + 1);
		memcpy(parts[m].p, o.p + from, to - from);
		parts[m].p[to - from] = '\0';
		parts[m].n = to - from;
		m++;
		from = to;
	}
	if (c->nst + m > MAXST)
		mc_fail("harness: script too long");
	memmove(&c->st[at + m], &c->st[at + 1], sizeof(step) * (size_t)(c->nst - at - 1));
	memcpy(&c->st[at], parts, sizeof(step) * (size_t)m);
	c->nst += m - 1;
	free(o.p);
}

static int
count_lines(const sbuf *b)
{
	size_t i;
	int n = 0;

	for (i = 0; i < b->n; i++)
		if (b->p[i] == '\n')
			n++;
	return n;
}
int srv_lines(client *c) { return count_lines(&c->c->out); }

int
srv_script_done(client *c)
{
	if (c->pos >= c->nst)
		return 1;
	if (c->c->local_closed && !c->st[c->pos].hard)
		return 1;
	return 0;
}

static int
step_enabled(client *c)
{
	step *s;

	if (srv_script_done(c))
		return 0;
	s = &c->st[c->pos];
	if (s->k != ST_CONN && s->k != ST_NOP && !c->c->accepted_ever)
		return 0;
	if (s->await > 0 && count_lines(&c->c->out) < s->await)
		return 0;
	if (s->await_cn && !c->c->peer_close_notify)
		return 0;
	if (s->at > 0 && sim_now() - 1000.0 < s->at)
		return 0;
	return 1;
}

/* Events: the clients' next steps, the environment of the command file, AIO. */
enum { EV_CLIENT = 1, EV_AIO_OK, EV_AIO_ERR, EV_AIO_SHORT, EV_DRAIN, EV_MORE = 100 };

static int
enabled(envevent *ev, int max)
{
	int n = 0, i;

	for (i = 0; i < W.naio && n < max; i++)
		if (W.aio[i].active && !W.aio[i].state) {
			ev[n].kind = EV_AIO_OK; ev[n].a = i; ev[n++].label = "disk write completes";
			if (W.k_aio_faults) {
				ev[n].kind = EV_AIO_ERR; ev[n].a = i; ev[n++].label = "disk write fails";
				ev[n].kind = EV_AIO_SHORT; ev[n].a = i; ev[n++].label = "disk write is short";
			}
		}
	for (i = 0; i < NCL && n < max; i++)
		if (step_enabled(&CL[i])) {
			ev[n].kind = EV_CLIENT; ev[n].a = i; ev[n].b = CL[i].pos;
			ev[n++].label = "client step";
		}
	if (W.fifo_cap < 65536 && W.fifo_used > 0 && W.fifo_reader && n < max) {
		ev[n].kind = EV_DRAIN; ev[n].a = 0; ev[n++].label = "Nagios reads its pipe";
	}
	if (srv_more_events)
		n += srv_more_events(ev + n, max - n);
	return n;
}

void srv_mark_fault(const void *, size_t);

static void
apply(const envevent *e)
{
	client *c;
	step *s;
	item *it;

	t_last_event = sim_now();
	switch (e->kind) {
	case EV_AIO_OK:
		if (sim_auto_fault == 1) {
			sim_aio_complete(&W.aio[e->a], ENOSPC, -1);
			return;
		}
		if (sim_auto_fault == 2) {
			sim_aio_complete(&W.aio[e->a], 0, (ssize_t)W.aio[e->a].n / 2);
			return;
		}
		sim_aio_complete(&W.aio[e->a], 0, (ssize_t)W.aio[e->a].n);
		return;
	case EV_AIO_ERR:
		sim_aio_complete(&W.aio[e->a], ENOSPC, -1);
		return;
	case EV_AIO_SHORT:
		sim_aio_complete(&W.aio[e->a], 0, (ssize_t)W.aio[e->a].n / 2);
		return;
	case EV_DRAIN:
		W.fifo_used = 0;
		return;
	case EV_CLIENT:
		break;
	default:
		if (srv_more_apply)
			srv_more_apply(e);
		return;
	}
	c = &CL[e->a];
	s = &c->st[c->pos++];
	c->t_last = sim_now();
	switch (s->k) {
	case ST_CONN:
		c->c->pending_accept = 1;
		/* FALLTHROUGH */
	case ST_HELLO:
		it = sim_push(c->c, I_HELLO);
		snprintf(it->id, sizeof(it->id), "%s", c->id);
		snprintf(it->psk, sizeof(it->psk), "%s", c->psk);
		it->psklen = (int)strlen(c->psk);
		sim_deliver(c->c, 1);
		break;
	case ST_NOP:
		if (s->arg == 1) /* TCP connection only */
			c->c->pending_accept = 1;
		else if (s->arg == 2) { /* Nagios starts */
			W.fifo_reader = W.fifo_exists = 1;
			srv_nagios_start = sim_now();
			mc_note("Nagios starts reading");
		}
		break;
	case ST_DATA:
		sim_push_data(c->c, s->p, s->n);
		sim_deliver(c->c, 1);
		sb_add(&c->sent, s->p, s->n);
		mc_note("client %d sends %zu bytes: %.*s", e->a, s->n, (int)(s->n > 60 ? 60 : s->n), s->p);
		break;
	case ST_CN:
		sim_push(c->c, I_CLOSE_NOTIFY);
		sim_deliver(c->c, 1);
		c->cn_sent = 1;
		break;
	case ST_FIN:
		sim_push(c->c, I_FIN);
		sim_deliver(c->c, 1);
		c->aborted = 1;
		break;
	case ST_RST:
		sim_push(c->c, I_RST);
		sim_deliver(c->c, 1);
		c->aborted = 1;
		break;
	case ST_GARB:
		sim_push(c->c, I_GARBAGE);
		sim_deliver(c->c, 1);
		c->aborted = 1;
		break;
	case ST_KU:
		sim_push(c->c, I_KEYUPDATE);
		sim_deliver(c->c, 1);
		break;
	case ST_PART:
		sim_push(c->c, I_PARTIAL);
		sim_deliver(c->c, 1);
		break;
	case ST_WINDOW:
		c->c->window = s->arg;
		c->c->blocked = 0;
		break;
	}
}

/* Blocked senders (choice-driven) become writable again as an event of their own. */
static int
unblock_events(envevent *ev, int max)
{
	int i, n = 0;

	for (i = 0; i < W.nconns && n < max; i++)
		if (W.conns[i].fd >= 0 && W.conns[i].blocked) {
			ev[n].kind = EV_MORE + 50;
			ev[n].a = i;
			ev[n++].label = "socket becomes writable";
		}
	for (i = 0; i < W.nconns && n < max && sim_tls; i++)
		if (sim_tls->held(&W.conns[i])) {
			ev[n].kind = EV_MORE + 51;
			ev[n].a = i;
			ev[n++].label = "the rest of a TLS flight arrives";
		}
	return n;
}

static int
enabled_all(envevent *ev, int max)
{
	int n = unblock_events(ev, max);

	return n + enabled(ev + n, max - n);
}
static void
apply_all(const envevent *e)
{
	if (e->kind == EV_MORE + 50) {
		W.conns[e->a].blocked = 0;
		t_last_event = sim_now();
		return;
	}
	if (e->kind == EV_MORE + 51) {
		sim_tls->arrive(&W.conns[e->a]);
		t_last_event = sim_now();
		return;
	}
	apply(e);
}

/* ------------------------------------------------------ reference model */
typedef struct { sbuf exp; int st; size_t need; int closed; int nacc; int uncertain; size_t pend; } ref;

static void
add_cmd(int client, int idx, const char *p, size_t n)
{
	int i;

	for (i = 0; i < NCMD; i++)
		if (CMD[i].client == client && CMD[i].idx == idx)
			return;
	if (NCMD >= 800)
		mc_fail("harness: too many commands");
	CMD[NCMD].p = malloc(n + 1);
	memcpy(CMD[NCMD].p, p, n);
	CMD[NCMD].p[n] = '\0';
	CMD[NCMD].n = n;
	CMD[NCMD].client = client;
	CMD[NCMD].idx = idx;
	CMD[NCMD].t = sim_now();
	NCMD++;
}

static int
words(char *line, char **w, int max)
{
	int n = 0;
	char *save, *p;

	for (p = strtok_r(line, " \t", &save); p; p = strtok_r(NULL, " \t", &save)) {
		if (n < max)
			w[n] = p;
		n++;
	}
	return n;
}

static int
number(const char *s, long *v)
{
	char *e;

	errno = 0;
	*v = strtol(s, &e, 10);
	return errno == 0 && e != s && *e == '\0';
}

/* Runs the documented protocol over everything the client has sent. */
static void
ref_run(client *c, ref *r)
{
	const char *b = c->sent.p;
	size_t n = c->sent.n, i = 0;
	long maxcmd = SCONF.maxcmd >= 0 ? SCONF.maxcmd : 16384;

	memset(r, 0, sizeof(*r));
	while (i < n && !r->closed) {
		const char *nl;
		char *line, *w[4];
		int nw;
		long v;

		if (r->st == 2) {
			int may, must;

			if (n - i < r->need)
				break;
			must = srv_authorized(c->id, b + i, r->need, &may);
			if (must != may && !must) {
				/* both answers are legal; follow the server */
				const char *a = c->c->out.p;
				size_t l, an = c->c->out.n;

				for (l = 0; l < r->exp.n && a != NULL; l++)
					if (r->exp.p[l] == '\n') {
						const char *e = memchr(a, '\n', an);

						an -= e ? (size_t)(e + 1 - a) : an;
						a = e ? e + 1 : NULL;
					}
				if (a == NULL || an < 4) {
					r->uncertain = 1;
					r->pend = i;
					break;
				}
				must = !strncmp(a, "OKAY", 4);
			}
			if (must) {
				add_cmd((int)(c - CL), r->nacc, b + i, r->need);
				r->nacc++;
				sb_adds(&r->exp, "OKAY\r\n");
			} else
				sb_adds(&r->exp, "FAIL\1\r\n");
			i += r->need;
			r->st = 1;
			continue;
		}
		nl = memchr(b + i, '\n', n - i);
		if (nl == NULL) {
			if (n - i > 4096) {
				sb_adds(&r->exp, "BAIL\1\r\n");
				r->closed = 1;
			}
			break;
		}
		if ((size_t)(nl - (b + i)) > 4096) {
			sb_adds(&r->exp, "BAIL\1\r\n");
			r->closed = 1;
			break;
		}
		line = strndup(b + i, (size_t)(nl - (b + i)));
		i = (size_t)(nl - b) + 1;
		if (line[0] && line[strlen(line) - 1] == '\r')
			line[strlen(line) - 1] = '\0';
		if (!strncasecmp(line, "BAIL", 4)) {
			r->closed = 1;
		} else if (r->st == 0) {
			if (!strncasecmp(line, "MOIN", 4)) {
				nw = words(line, w, 4);
				if (nw == 3 && number(w[1], &v) && v > 0) {
					sb_adds(&r->exp, "MOIN 1\r\n");
					r->st = 1;
				} else
					sb_adds(&r->exp, "FAIL\1\r\n");
			} else if (!strncasecmp(line, "PING", 4)) {
				sb_adds(&r->exp, "PONG 1\r\n");
				r->closed = 1;
			} else if (!strncasecmp(line, "QUIT", 4)) {
				sb_adds(&r->exp, "OKAY\r\n");
				r->closed = 1;
			} else
				sb_adds(&r->exp, "FAIL\1\r\n");
		} else {
			if (!strncasecmp(line, "NOOP", 4))
				sb_adds(&r->exp, "OKAY\r\n");
			else if (!strncasecmp(line, "QUIT", 4)) {
				sb_adds(&r->exp, "OKAY\r\n");
				r->closed = 1;
			} else if (!strncasecmp(line, "PUSH", 4)) {
				nw = words(line, w, 4);
				if (nw == 2 && number(w[1], &v) && v > 0 && (maxcmd == 0 || v <= maxcmd)) {
					sb_adds(&r->exp, "OKAY\r\n");
					r->st = 2;
					r->need = (size_t)v;
				} else
					sb_adds(&r->exp, "FAIL\1\r\n");
			} else
				sb_adds(&r->exp, "FAIL\1\r\n");
		}
		free(line);
	}
}

/* Compares what the client got (a) with what it should get (e): 0 equal,
 * 1 a proper prefix, -1 mismatch at *pos. *okacks counts matched lines. */
static int
cmp_transcript(const sbuf *e, const sbuf *a, size_t *ei_out, size_t *ai_out)
{
	size_t ei = 0, ai = 0;

	while (ai < a->n) {
		if (ei >= e->n) { *ei_out = ei; *ai_out = ai; return -1; }
		if (e->p[ei] == 1) { /* " human readable message" */
			size_t k = ai;

			if (a->p[k] != ' ') { *ei_out = ei; *ai_out = ai; return -1; }
			while (k < a->n && (unsigned char)a->p[k] >= 32 && (unsigned char)a->p[k] < 127)
				k++;
			if (k == a->n) { *ei_out = ei; *ai_out = k; return 1; }
			if (k - ai < 2 || a->p[k] != '\r') { *ei_out = ei; *ai_out = k; return -1; }
			ei++;
			ai = k;
			continue;
		}
		if (e->p[ei] != a->p[ai]) { *ei_out = ei; *ai_out = ai; return -1; }
		ei++;
		ai++;
	}
	*ei_out = ei;
	*ai_out = ai;
	return ei == e->n ? 0 : 1;
}

static double session_timeout(void) { return SCONF.timeout >= 0 ? SCONF.timeout : 60.0; }

static void
vis(const sbuf *b, char *o, size_t n)
{
	size_t i, k = 0;

	for (i = 0; i < b->n && k + 5 < n; i++) {
		unsigned char ch = (unsigned char)b->p[i];

		if (ch == 1) k += (size_t)sprintf(o + k, "<msg>");
		else if (ch == '\r') ;
		else if (ch == '\n') k += (size_t)sprintf(o + k, "|");
		else if (ch < 32 || ch > 126) k += (size_t)sprintf(o + k, "\\%02x", ch);
		else o[k++] = (char)ch;
		if (k + 12 > n) break;
	}
	o[k] = '\0';
}

/* Must a server that isn't hit by faults accept this client? */
static int
credentials_ok(const client *c)
{
	const user *u = NULL;
	int i;

	if (SCONF.raw || W.k_accept_faults || srv_may_refuse || c->id[0] == '\0' || strlen(c->id) > 180 || strlen(c->psk) > 200)
		return 0;
	for (i = 0; i < 6 && SCONF.u[i].id; i++)
		if (!strcmp(SCONF.u[i].id, c->id))
			u = &SCONF.u[i];
	for (i = 0; u == NULL && i < 6 && SCONF.u[i].id; i++)
		if (!strcmp(SCONF.u[i].id, "*"))
			u = &SCONF.u[i];
	return u != NULL && u->pw != NULL && u->pw[0] && !strcmp(u->pw, c->psk);
}

static void
check_client(client *c, int final)
{
	ref r;
	size_t ei = 0, ai = 0;
	int x;
	char ve[700], va[700];

	ref_run(c, &r);
	if (c->no_transcript) {
		sb_free(&r.exp);
		return;
	}
	x = cmp_transcript(&r.exp, &c->c->out, &ei, &ai);
	if (r.uncertain && x == -1 && ei == r.exp.n)
		x = 0;
	if (x == -1 && ei == r.exp.n && session_timeout() > 0
	    && (c->timed_out || sim_now() - c->t_last >= session_timeout() - 0.001)) {
		/* after the inactivity timeout a BAIL message may follow */
		const char *m = c->c->out.p + ai;

		if (!strncmp(m, "BAIL ", 5) && strstr(m, "\r\n") == m + strlen(m) - 2) {
			x = 0;
			c->timed_out = 1;
		}
	}
	if (x == -1) {
		vis(&r.exp, ve, sizeof(ve));
		vis(&c->c->out, va, sizeof(va));
		mc_fail("wrong response to client %d (%s): expected %s got %s", (int)(c - CL), c->id, ve, va);
	}
	if (final && x == 1 && !c->aborted && !r.uncertain && c->c->handshaken
	    && !(c->cn_sent && !c->c->peer_close_notify) && !c->stalled) {
		vis(&r.exp, ve, sizeof(ve));
		vis(&c->c->out, va, sizeof(va));
		mc_fail("client %d (%s) never got its complete response: expected %s got %s", (int)(c - CL), c->id, ve, va);
	}
	if (final && c->nst > 0 && c->st[0].k == ST_CONN && c->pos > 0 && !c->aborted && !c->cn_sent && !c->stalled
	    && c->c->accepted_ever && !c->c->handshaken && c->c->local_closed && credentials_ok(c)
	    && c->c->t_closed - c->t_last < 0.5)
		mc_fail("client %d (%s) was refused despite its valid credentials", (int)(c - CL), c->id);
	if (final && r.closed && !c->aborted && !c->stalled && c->c->handshaken) {
		if (!c->c->peer_close_notify && !c->cn_sent)
			mc_fail("client %d (%s): session ended without a TLS close_notify", (int)(c - CL), c->id);
		if ((c->cn_sent || c->aborted) && !c->c->local_closed)
			mc_fail("client %d (%s): the server never closed the connection", (int)(c - CL), c->id);
	}
	if (final && c->c->pending_accept && !c->c->accepted_ever && c->pos > 0 && !c->aborted && !SCONF.raw)
		mc_fail("client %d (%s) was never accepted", (int)(c - CL), c->id);
	if (final && (c->aborted || c->cn_sent) && c->c->accepted_ever && !c->c->local_closed)
		mc_fail("client %d (%s): connection not released after the client went away", (int)(c - CL), c->id);
	sb_free(&r.exp);
}

/* For each command: number of response lines up to and including its ack. */
static int
ack_line(client *c, int idx)
{
	ref r;
	size_t lo = 0, hi = c->sent.n, full = c->sent.n;
	int lines;

	/* the smallest prefix of the sent bytes for which it is accepted */
	while (lo < hi) {
		size_t mid = (lo + hi) / 2;

		c->sent.n = mid;
		ref_run(c, &r);
		if (r.nacc > idx)
			hi = mid;
		else
			lo = mid + 1;
		sb_free(&r.exp);
	}
	c->sent.n = lo;
	ref_run(c, &r);
	c->sent.n = full;
	lines = count_lines(&r.exp);
	sb_free(&r.exp);
	return lines;
}

void
srv_ref_update(void)
{
	int i;
	ref r;

	for (i = 0; i < NCL; i++) {
		ref_run(&CL[i], &r);
		sb_free(&r.exp);
	}
}

/* A fault loses at most what was being stored, or what had been accepted before it if that isn't known. */
void
srv_mark_fault(const void *p, size_t n)
{
	simfile *f;
	int i;

	srv_lossy = 1;
	srv_ref_update();
	for (i = 0; i < NCMD; i++)
		if (p == NULL || memmem(p, n, CMD[i].p, CMD[i].n))
			CMD[i].may_lose = 1;
	/* the announcement of an earlier file may be part of what is lost */
	for (f = W.files; p != NULL && f != NULL; f = f->next)
		if (f->data.n > 0 && f->data.p != p && memmem(p, n, f->path, strlen(f->path)))
			srv_mark_fault(f->data.p, f->data.n);
}

/* ------------------------------------------------------ delivery oracle */
static int n_delivered;

static void
match_command(const char *p, size_t n, const char *where)
{
	int i, dup = -1;

	for (i = 0; i < NCMD; i++)
		if (CMD[i].n == n && !memcmp(CMD[i].p, p, n)) {
			if (!CMD[i].seen)
				break;
			dup = i;
		}
	if (i == NCMD) {
		/* perhaps it isn't acknowledged yet */
		int k;

		for (k = 0; k < NCL; k++) {
			ref r;
			int is;

			ref_run(&CL[k], &r);
			is = r.uncertain && r.need == n && !memcmp(CL[k].sent.p + r.pend, p, n);
			sb_free(&r.exp);
			if (is) {
				add_cmd(k, r.nacc, p, n);
				CMD[NCMD - 1].seen = 1;
				n_delivered++;
				return;
			}
		}
		if (dup >= 0)
			mc_fail("command delivered twice (%s): %.*s", where, (int)(n > 100 ? 100 : n), p);
		mc_fail("%s contains %zu bytes which are no command the server accepted: %.*s", where, n,
		    (int)(n > 100 ? 100 : n), p);
	}
	CMD[i].seen = 1;
	n_delivered++;
}

static int
parse_process_file(const char *p, size_t n, char *path, size_t pn)
{
	const char *q;
	size_t k;
	char tmp[300];

	if (n > 250)
		return 0;
	memcpy(tmp, p, n);
	tmp[n] = '\0';
	if (tmp[0] != '[')
		return 0;
	if ((q = strstr(tmp, "] PROCESS_FILE;")) == NULL)
		return 0;
	q += 15;
	k = strcspn(q, ";");
	if (strncmp(q, W.tmp_path, strlen(W.tmp_path)) || q[strlen(W.tmp_path)] != '/')
		return 0;
	if (strcmp(q + k, ";1\n"))
		return 0;
	if (k >= pn)
		return 0;
	memcpy(path, q, k);
	path[k] = '\0';
	{
		/* the time stamp is the current time */
		long t = strtol(tmp + 1, NULL, 10);

		if (t < 1700000000L || t > 1700000000L + (long)sim_now() + 1)
			return 0;
	}
	return 1;
}

static void
expand(const char *p, size_t n, const char *where, int depth)
{
	if (depth > 20)
		mc_fail("spool files refer to each other endlessly");
	while (n > 0) {
		const char *nl = memchr(p, '\n', n);
		size_t k;
		char path[200];

		if (nl == NULL)
			mc_fail("%s ends with an unterminated command: %.*s", where, (int)(n > 100 ? 100 : n), p);
		k = (size_t)(nl - p) + 1;
		if (parse_process_file(p, k, path, sizeof(path))) {
			simfile *f = sim_find_file(path);

			if (f == NULL)
				mc_fail("announced spool file %s does not exist", path);
			if (f->open_count > 0)
				mc_fail("spool file %s announced while it is still open", path);
			if (f->failed)
				mc_fail("spool file %s announced although writing it failed", path);
			if (f->announced++)
				mc_fail("spool file %s announced twice", path);
			if (f->mode & 022)
				mc_fail("spool file %s is writable by others", path);
			expand(f->data.p, f->data.n, path, depth + 1);
		} else
			match_command(p, k, where);
		p += k;
		n -= k;
	}
}

static void
on_fifo_write(const char *p, size_t n)
{
	t_last_event = sim_now();
	if (W.fifo_cap >= 65536)
		W.fifo_used = 0; /* Nagios keeps up */
	if (n > PIPE_BUF)
		mc_fail("write of %zu bytes to the command file, more than PIPE_BUF (not atomic)", n);
	if (srv_no_delivery)
		return;
	srv_ref_update();
	expand(p, n, "write to the command file", 0);
	n_fw_checked++;
}

/* Nagios was away and the queue limit may have been exceeded: commands are in
 * the order of submission (a single client). */
static void
check_overflow(void)
{
	int i, n = 0;
	size_t q, sum = 0, first = 0;
	static char drop[sizeof(CMD) / sizeof(*CMD)];
	int model;

	memset(drop, 0, sizeof(drop));
	while (n < NCMD && CMD[n].t < srv_nagios_start)
		n++;
	for (model = 0; model < 2; model++) { /* is the first one part of the queue? */
		q = 0;
		for (i = model; i < n; i++) {
			if (q + CMD[i].n > srv_may_overflow) {
				int j;

				for (j = model; j < i; j++)
					drop[j] = 1;
				q = 0;
			}
			q += CMD[i].n;
		}
	}
	for (i = 0; i < n; i++) {
		if (CMD[i].seen)
			sum += CMD[i].n;
		if (drop[i])
			CMD[i].may_lose = 1;
	}
	first = n > 0 ? CMD[0].n : 0;
	if (sum > srv_may_overflow + first)
		mc_fail("%zu bytes had been queued, the limit is %zu", sum, srv_may_overflow);
}

static void
check_delivery(void)
{
	int i;

	if (srv_may_overflow)
		check_overflow();

	for (i = 0; i < NCMD; i++) {
		client *c = &CL[CMD[i].client];

		if (CMD[i].seen)
			continue;
		if (CMD[i].may_lose)
			continue;
		if (srv_lines(c) < ack_line(c, CMD[i].idx))
			continue; /* never acknowledged */
		mc_fail("acknowledged command never delivered: %.*s", (int)(CMD[i].n > 100 ? 100 : CMD[i].n), CMD[i].p);
	}
}

/* ---------------------------------------------------------------- run */
static void
on_step(void)
{
	int i;

	if (W.terminating)
		return;
	for (i = 0; i < NCL; i++)
		if (CL[i].c->out.n != CL[i].checked_out) {
			check_client(&CL[i], 0);
			CL[i].checked_out = CL[i].c->out.n;
			CL[i].t_out = sim_now();
		}
	{
		int n = 0;

		for (i = 0; i < SIM_NFD; i++) {
			simfd *f = W.fds[i].kind ? &W.fds[i] : NULL;

			if (f != NULL && (f->kind == K_FIFO || (f->kind == K_FILE && f->file != NULL && !strcmp(f->file->path, W.fifo_path))))
				n++;
		}
		if (n > 1)
			mc_fail("%d descriptors of the command file are open", n);
	}
	if (srv_more_step)
		srv_more_step();
}

static double
next_time(void)
{
	double t = 1e18;
	int i;

	for (i = 0; i < NCL; i++)
		if (!srv_script_done(&CL[i]) && CL[i].st[CL[i].pos].at > sim_now() - 1000.0
		    && CL[i].st[CL[i].pos].at + 1000.0 < t)
			t = CL[i].st[CL[i].pos].at + 1000.0;
	return t;
}

static int
quiescent(void)
{
	int i, open = 0;

	for (i = 0; i < W.naio; i++)
		if (W.aio[i].active && !W.aio[i].state)
			return 0;
	for (i = 0; i < NCL; i++) {
		if (CL[i].c->fd >= 0)
			open = 1;
		if (CL[i].pos < CL[i].nst && CL[i].st[CL[i].pos].at > 0
		    && CL[i].st[CL[i].pos].at > sim_now() - 1000.0)
			return 0;
	}
	if (open && srv_expect_timeouts) {
		if (sim_now() < t_last_event + 3 * session_timeout() + 100)
			return 0;
	} else if (sim_now() < t_last_event + srv_settle)
		return 0;
	/* everything has settled: final checks on the running server */
	for (i = 0; i < NCL; i++)
		check_client(&CL[i], 1);
	if (!srv_no_delivery)
		check_delivery();
	if (srv_on_quiescent)
		srv_on_quiescent();
	return 1;
}

void
serve(void)
{
	static char lvl[8];
	int i;
	uint64_t h = 1;

	srv_write_conf();
	if (srv_argc == 0) {
		srv_argv[srv_argc++] = "nsca-ng";
		srv_argv[srv_argc++] = "-F";
		srv_argv[srv_argc++] = "-c";
		srv_argv[srv_argc++] = srv_conf_path;
		snprintf(lvl, sizeof(lvl), "%d", SCONF.loglevel);
		srv_argv[srv_argc++] = "-l";
		srv_argv[srv_argc++] = lvl;
	}
	srv_argv[srv_argc] = NULL;
	sim_enabled = enabled_all;
	sim_apply = apply_all;
	sim_on_step = on_step;
	sim_quiescent = quiescent;
	sim_on_fifo_write = on_fifo_write;
	sim_on_fault = srv_mark_fault;
	sim_next_time = next_time;
	n_delivered = 0;
	srv_how = sim_run_main(repo_main, srv_argc, (char **)srv_argv);
	srv_ran = 1;
	if (srv_final)
		srv_final();
	else {
		if (!W.terminating)
			mc_fail("the server terminated on its own: %s (exit code %d): %s",
			    W.exited == 2 ? "killed by a signal" : "exit", W.exit_code, W.log.n ? W.log.p : "");
		if (W.exited != 1 || W.exit_code != 0)
			mc_fail("the server did not terminate cleanly on SIGTERM (code %d): %s", W.exit_code,
			    W.log.n ? W.log.p : "");
	}
	for (i = 0; i < NCL; i++) {
		if (CL[i].c->out.n)
			h = mc_hash(h, CL[i].c->out.p, CL[i].c->out.n);
		h = mc_hash(h, &CL[i].c->local_closed, sizeof(int));
	}
	for (i = 0; i < W.nfw; i++)
		h = mc_hash(h, W.fw[i].p, W.fw[i].n);
	mc_nontrivial(h);
	if (NCL > 0) {
		char va[200];

		vis(&CL[0].c->out, va, sizeof(va));
		mc_sample("clients=%d steps=%d fifo_writes=%d spool_files=%d; client 0 received: %s",
		    NCL, CL[0].nst, W.nfw, W.nfiles, va);
	}
}
