#define _GNU_SOURCE
#include "lib.h"
#include "rssl.h"
#include <stdio.h>
#include <poll.h>
#include <signal.h>
extern int sim_poll(struct pollfd *, nfds_t, int);
#include <stdlib.h>
#include <string.h>

double lib_timeout;
int lib_new_style;
int lib_nobj, lib_trouble, lib_wrong, lib_late;
const char *lib_who[8][2];
static int failed_obj[8], open_obj[8], obj_conn[8], cur = -1, calls;
static double t_last, t_call;
static int64_t sec0;
static int nreact;

static const char *
lookup(const char *id)
{
	int i;

	for (i = 0; i < 8; i++)
		if (lib_who[i][0] && !strcmp(lib_who[i][0], id))
			return lib_who[i][1];
	return NULL;
}

static int
connect_outcome(conn *c)
{
	if (peer_faults && mc_choose(2, "connect: established/refused") == 1) {
		PEER[c->index].refused = PEER[c->index].misbehaved = 1;
		lib_trouble = 1;
		return 3;
	}
	return 2;
}
static int enabled(envevent *ev, int max) { return peer_events(ev, max); }
static void
apply(const envevent *e)
{
	int i, bad[MAXCONN];

	for (i = 0; i < MAXCONN; i++)
		bad[i] = PEER[i].misbehaved + PEER[i].bad_late;
	peer_apply(e);
	t_last = sim_now();
	for (i = 0; i < MAXCONN; i++)
		if (PEER[i].misbehaved + PEER[i].bad_late > bad[i])
			lib_trouble = 1;
}
static void
on_step(void)
{
	int i;
	double t = t_last > t_call ? t_last : t_call;

	if (cur >= 0 && sim_now() > t_call + 20 * (lib_timeout + 3))
		mc_fail("the call still isn't over after %.0f seconds (timeout: %.0f)", sim_now() - t_call, lib_timeout);
	for (i = 0; i < W.nconns; i++)
		peer_check_transcript(i);
	if (cur >= 0 && sim_now() > t + 1.5 * lib_timeout + 4)
		mc_fail("the call still isn't over %.0f seconds after the server's last action (timeout: %.0f)", sim_now() - t, lib_timeout);
}

void
lib_reset(void)
{
	int i;

	sim_reset();
	peer_reset();
	for (i = 0; i < lib_nobj; i++)
		if (open_obj[i])
			mc_fail("harness: object left over");
	lib_nobj = 0;
	memset(open_obj, 0, sizeof(open_obj));
	memset(failed_obj, 0, sizeof(failed_obj));
	memset(lib_who, 0, sizeof(lib_who));
	for (i = 0; i < 8; i++)
		obj_conn[i] = -1;
	lib_timeout = 2;
	lib_new_style = 0;
	lib_trouble = lib_wrong = lib_late = 0;
	calls = 0;
	cur = -1;
	t_last = 0;
	nreact = 0;
	W.k_max_advances = 3000;
	W.k_max_steps = 20000;
#ifdef PYTHON
	W.sa_set[SIGPIPE] = 1;          /* as set up by the interpreter */
	W.sa[SIGPIPE].sa_handler = SIG_IGN;
#endif
	sim_enabled = enabled;
	sim_apply = apply;
	sim_on_step = on_step;
	sim_next_time = peer_next_time;
	sim_connect_outcome = connect_outcome;
	rssl_lookup = lookup;
	rssl_like_nscang = 1;
}

const char *
lib_new(int obj, const libarg *a)
{
	return lib_init(obj, a, OP_NEW);
}

const char *
lib_init(int obj, const libarg *a, int op)
{
	static char whobuf[8][2][300];
	const char *r;
	int i, k;

	for (i = 0; a[i].k; i++) {
		k = !strcmp(a[i].k, "identity") ? 0 : !strcmp(a[i].k, "psk") ? 1 : -1;
		if (k >= 0 && a[i].v) {
			snprintf(whobuf[obj][k], sizeof(whobuf[obj][k]), "%s", a[i].v);
			lib_who[obj][k] = whobuf[obj][k];
		}
	}
	if (obj >= lib_nobj)
		lib_nobj = obj + 1;
	t_call = sim_now();
	cur = obj;
	r = glue_call(op, obj, a, lib_new_style);
	cur = -1;
	if (r == NULL)
		open_obj[obj] = 1;
	if (op == OP_INIT && r == NULL) {
		failed_obj[obj] = 0;
		if (obj_conn[obj] >= 0 && W.conns[obj_conn[obj]].fd >= 0)
			mc_fail("the old connection of an object initialised again was left open");
		obj_conn[obj] = -1;
	}
	return r;
}

static void
vis(const char *p, size_t n, char *o, size_t sz)
{
	size_t i, l = 0;

	for (i = 0; i < n && l + 6 < sz; i++) {
		unsigned char c = (unsigned char)p[i];

		if (c >= 32 && c < 127 && c != '\\')
			o[l++] = (char)c;
		else
			l += (size_t)sprintf(o + l, "\\%03o", c);
	}
	o[l] = '\0';
}

static int
matches(const char *got, size_t gn, const char *p, size_t n)
{
	char *end;
	unsigned long t;

	if (*p == '\1') {
		if (gn < 4 || got[0] != '[' || got[1] < '0' || got[1] > '9')
			return 0;
		t = strtoul(got + 1, &end, 10);
		if (strncmp(end, "] ", 2) || t < (unsigned long)sec0 || t > (unsigned long)(W.real / 1000000000))
			return 0;
		end += 2;
		gn -= (size_t)(end - got);
		got = end;
		p++;
		n--;
	}
	return gn == n && memcmp(got, p, n) == 0;
}

void
lib_idle(int what)
{
	int i;

	for (i = 0; i < W.nconns; i++) {
		conn *c = &W.conns[i];

		if (c->fd < 0 || !RP[i].done)
			continue;
		mc_note("t=%.1f the server ends idle connection %d (%d)", sim_now(), i, what);
		sim_push(c, what == PB_FIN ? I_FIN : what == PB_RST ? I_RST : I_CLOSE_NOTIFY);
		sim_deliver(c, c->nq);
		if (what == PB_CN) {
			sim_push(c, I_FIN);
			sim_deliver(c, c->nq);
		}
		PEER[i].misbehaved = 1;
		PEER[i].phase = 5;
	}
}

/* Time passes between two calls. */
void
lib_pause(double t)
{
	struct pollfd p = { -1, 0, 0 };
	double until = sim_now() + t;

	while (sim_now() < until)
		sim_poll(&p, 1, (int)((until - sim_now()) * 1000) + 1);
}

const char *
lib_call(int op, int obj, const libarg *a, const char *expect, size_t n)
{
	int had[MAXCONN], i, k, good = 0, total = 0, first = W.nconns, style = calls & 1, was = 0;
	const char *r;
	char x[600], y[600];
	double t;

	for (i = 0; i < MAXCONN; i++)
		had[i] = PEER[i].ncmd;
	lib_trouble = 0;
	if (obj_conn[obj] >= 0 && !failed_obj[obj] && (PEER[obj_conn[obj]].misbehaved || PEER[obj_conn[obj]].bad_late))
		was = 1;
	t_call = sim_now();
	sec0 = W.real / 1000000000;
	cur = obj;
	calls++;
	W.epoll_waits = W.time_advances = 0;
	r = glue_call(op, obj, a, style);
	cur = -1;
	t = t_last > t_call ? t_last : t_call;
	failed_obj[obj] = r != NULL;
	mc_note("t=%.1f call %d: %s", sim_now(), calls, r ? r : "ok");
	if (sim_now() > t + 1.5 * lib_timeout + 4)
		mc_fail("the call returned %.0f seconds after the server's last action (timeout: %.0f)", sim_now() - t, lib_timeout);
	for (i = 0; i < W.nconns; i++) {
		if (i >= first) {
			if (RP[i].done && strcmp(W.conns[i].id, lib_who[obj][0]))
				mc_fail("the session was authenticated as %s instead of %s", W.conns[i].id, lib_who[obj][0]);
			obj_conn[obj] = i;
		}
		for (k = had[i]; k < PEER[i].ncmd; k++) {
			total++;
			if (expect == NULL || !matches(PEER[i].cmd[k], PEER[i].cmdlen[k], expect, n)) {
				vis(PEER[i].cmd[k], PEER[i].cmdlen[k], x, sizeof(x));
				vis(expect ? expect : "nothing", expect ? n : 7, y, sizeof(y));
				mc_fail("call %d submitted \"%s\", expected: \"%s\"", calls, x, y);
			}
			if (i < first && i != obj_conn[obj])
				mc_fail("the command was submitted on the connection of another object");
			if (PEER[i].acked[k])
				good++;
		}
	}
	if (r == NULL) {
		if (good == 0) {
			vis(expect ? expect : "nothing", expect ? n : 7, y, sizeof(y));
			mc_fail("call %d succeeded, but the server didn't confirm the command \"%s\"", calls, y);
		}
		if (total > 1 && !lib_trouble && !lib_late)
			mc_fail("call %d submitted the command %d times", calls, total);
	} else {
		if (*r == '\0')
			mc_fail("call %d failed without a message", calls);
		if (strstr(r, "(null)"))
			mc_fail("call %d: bogus error message: %s", calls, r);
		for (i = 0; i < W.nconns; i++)
			if (RP[i].failed && !lib_wrong && !peer_faults)
				mc_fail("the TLS handshake failed: %s", r);
		if (expect != NULL && !lib_trouble && !was && !lib_late)
			mc_fail("call %d failed although nothing went wrong: %s", calls, r);
	}
	{
		uint64_t h = mc_hash((uint64_t)calls, r ? r : "", r ? strlen(r) : 0);

		h = mc_hash(h, expect ? expect : "", expect ? n : 0);
		mc_nontrivial(h + (uint64_t)(good * 7 + total));
		vis(expect ? expect : "", expect ? n : 0, x, 120);
		mc_sample("call %d for \"%s\": %s; submitted %d times, confirmed %d times", calls, x, r ? r : "succeeded", total, good);
	}
	return r;
}

void
lib_finish(void)
{
	int i;
	char x[200];

	for (i = 0; i < lib_nobj; i++) {
		int c = obj_conn[i], clean = c >= 0 && !W.k_write_choices && W.conns[c].fd >= 0 && RP[c].done && !PEER[c].misbehaved && !PEER[c].bad_late && !peer_faults;
		size_t seen = c >= 0 ? PEER[c].seen : 0;

		if (!open_obj[i])
			continue;
		t_call = sim_now();
		cur = i;
		W.epoll_waits = W.time_advances = 0;
		(void)glue_call(OP_DEL, i, NULL, 0);
		cur = -1;
		open_obj[i] = 0;
		if (clean) {
			conn *k = &W.conns[c];

			if (k->out.n != seen + 6 || memcmp(k->out.p + seen, "QUIT\r\n", 6)) {
				vis(k->out.p + seen, k->out.n - seen, x, sizeof(x));
				mc_fail("the session was ended with \"%s\" instead of QUIT", x);
			}
			if (!k->peer_close_notify)
				mc_fail("the TLS connection was not shut down");
		}
	}
	for (i = 0; i < W.nconns; i++)
		if (W.conns[i].fd >= 0)
			mc_fail("connection %d was left open", i);
	if (W.nopen > 0)
		mc_fail("%d descriptor(s) left open", W.nopen);
	if (trk_blocks > 0)
		mc_fail("%ld block(s) of memory (%ld bytes) were not freed", trk_blocks, trk_bytes);
}
