/* Server scenarios: which executions of the real server are enumerated. */
#define _GNU_SOURCE
#include "srv.h"
#include <errno.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#define ARG ((int)(intptr_t)arg)
#define A(n) ((void *)(intptr_t)(n))

static void
base(void)
{
	srv_reset();
	SCONF.u[0] = (user){ .id = "a", .pw = "pa", .cmds = { "OK.*", "QA.*", NULL } };
	SCONF.u[1] = (user){ .id = "b", .pw = "pb", .cmds = { "OK.*", "QB.*", NULL } };
}

static void
cl_req(client *c, const char *fmt, ...)
{
	char b[6000];
	va_list ap;
	int n;

	va_start(ap, fmt);
	n = vsnprintf(b, sizeof(b), fmt, ap);
	va_end(ap);
	cl_send(c, c->lines_planned, b, (size_t)n);
	c->lines_planned++;
}
/* A request which is answered by closing the connection. */
static void
cl_last(client *c, const char *s)
{
	cl_send(c, c->lines_planned, s, strlen(s));
}
static void
cl_big(client *c, const char *prefix, char fill, size_t total)
{
	size_t n;
	char *p = mkcmd(prefix, fill, total, &n);

	cl_push(c, p, n);
	free(p);
}
/* a complete session submitting one command */
static client *
good(const char *id, const char *pw, const char *cmd)
{
	client *c = cl_new(id, pw);

	cl_conn(c);
	cl_moin(c);
	cl_pushs(c, "%s", cmd);
	cl_quit(c);
	cl_close(c);
	return c;
}
static void
sever(client *c, stkind k)      /* the connection breaks */
{
	cl_step(c, k, 0);
	c->st[c->nst - 1].hard = 1;
}

/* ------------------------------------------------------------------ basic */
static void
sc_basic(void *arg)
{
	client *c;

	base();
	c = cl_new("a", "pa");
	cl_conn(c);
	cl_moin(c);
	cl_pushs(c, "[1] OK;one\n");
	cl_pushs(c, "[1] NO;two\n");
	cl_quit(c);
	cl_close(c);
	if (ARG & 1) W.k_write_choices = 1;
	if (ARG & 2) W.k_fifo_faults = 1;
	serve();
}

/* ------------------------------------- C06: all sequences of requests */
enum { TERM = 1 };
static int
one_request(client *c, int *in_session, int r, int k)
{
	if (!*in_session)
		switch (r) {
		case 0: cl_moin(c); *in_session = 1; return 0;
		case 1: cl_req(c, "PING 1\r\n"); return TERM;
		case 2: cl_last(c, "BAIL I feel sick\r\n"); return TERM;
		case 3: cl_req(c, "moin 1 sess\n"); *in_session = 1; return 0;
		case 4: cl_req(c, "MOIN\r\n"); return 0;
		case 5: cl_req(c, "MOIN 0 sess\r\n"); return 0;
		case 6: cl_req(c, "MOIN 1\r\n"); return 0;
		case 7: cl_req(c, "MOIN x sess\r\n"); return 0;
		case 8: cl_req(c, "PUSH 11\r\n"); return 0;
		case 9: cl_req(c, "NOOP\r\n"); return 0;
		case 10: cl_req(c, "QUIT\r\n"); return TERM;
		case 11: cl_req(c, "\r\n"); return 0;
		case 12: cl_req(c, "HELO there\r\n"); return 0;
		default: cl_req(c, "[1] OK;early\n"); return 0;
		}
	switch (r) {
	case 0: cl_pushs(c, "[%d] OK;seq%d\n", k + 1, k); return 0;
	case 1: cl_pushs(c, "[%d] NO;seq%d\n", k + 1, k); return 0;
	case 2: cl_req(c, "NOOP\r\n"); return 0;
	case 3: cl_req(c, "QUIT\r\n"); return TERM;
	case 4: cl_last(c, "bail out\n"); return TERM;
	case 5: cl_req(c, "PUSH\r\n"); return 0;
	case 6: cl_req(c, "PUSH 0\r\n"); return 0;
	case 7: cl_req(c, "PUSH many\r\n"); return 0;
	case 8: cl_req(c, "PUSH 16385\r\n"); return 0;
	case 9: cl_req(c, "MOIN 1 again\r\n"); return 0;
	case 10: cl_req(c, "PING 1\r\n"); return 0;
	case 11: cl_req(c, "OKAY\r\n"); return 0;
	case 12:
		cl_sends(c, c->lines_planned, "push 10\n");
		c->lines_planned++;
		cl_sends(c, c->lines_planned, "[%d] OK;lf\n", k % 10);
		c->lines_planned++;
		return 0;
	default: cl_req(c, "PUSH -1\r\n"); return 0;
	}
}
static void
sc_proto(void *arg)
{
	client *c;
	int i, in = 0, depth = ARG, t = 0;

	base();
	if (mc_tier_thorough())
		depth++;
	c = cl_new("a", "pa");
	cl_conn(c);
	for (i = 0; i < depth && !t; i++)
		t = one_request(c, &in, mc_choose_free(14, "request"), i);
	if (!t && in)
		cl_quit(c);
	else if (!t)
		cl_req(c, "PING 1\r\n");
	cl_close(c);
	serve();
}
static void
sc_proto_in(void *arg)
{
	client *c;
	int i, in = 1, depth = ARG, t = 0;

	base();
	if (mc_tier_thorough())
		depth++;
	c = cl_new("a", "pa");
	cl_conn(c);
	cl_moin(c);
	for (i = 0; i < depth && !t; i++)
		t = one_request(c, &in, mc_choose_free(14, "request"), i);
	if (!t)
		cl_quit(c);
	cl_close(c);
	serve();
}
/* request arguments: numbers, spacing, case, line endings */
static void
sc_proto_args(void *arg)
{
	static const char *const req[] = {
		"PUSH 1\r\n", "PUSH 00011\r\n", "PUSH 4294967307\r\n", "PUSH 18446744073709551627\r\n",
		"PUSH 2147483648\r\n", "PUSH 99999999999999999999\r\n", "PUSH 16384\r\n", "PUSH 16385\r\n",
		"PuSh 0\r\n", "PUSH 11 11\r\n", "PUSH  \r\n", "noop\n", "NoOp\r\n", "quit\n", "PUSH -4294967285\r\n",
		"PUSH 0x0b\r\n", "BAIL\r\n", "bail sick\n", "Quit\r\n", "MOIN 1 x\r\n", "X\n", "\n",
		"OKAY\r\n", "QUI\r\n", "NOO\r\n", "NO\r\n", "Q\r\n", "PUS 11\r\n", "PU 11\r\n", "BAI\r\n", "B\r\n",
		"PIN\r\n", "MOI 1 x\r\n", " NOOP\r\n", "\tNOOP\r\n", " QUIT\r\n", " PUSH 11\r\n", "PUSH 11 \t\r\n", "PUSH\t11\r\n", "PUSH",
	};
	int r = mc_choose_free((int)(sizeof(req) / sizeof(*req)), "request");
	client *c;
	const char *s = req[r];

	base();
	(void)arg;
	c = cl_new("a", "pa");
	cl_conn(c);
	cl_moin(c);
	if (r == 1 || (strchr(s, '\t') != NULL && strncmp(s, "PUSH", 4) == 0)) {
		cl_req(c, "%s", s);
		cl_req(c, "[1] OK;yes\n");
		cl_quit(c);
	} else if (r == 0) {
		cl_req(c, "%s", s);
		cl_req(c, "\n"); /* not a command */
		cl_quit(c);
	} else if (r == 6) {
		size_t n;
		char *p = mkcmd("[1] OK;max", 'm', 16384, &n);

		cl_req(c, "%s", s);
		cl_send(c, c->lines_planned, p, n);
		c->lines_planned++;
		free(p);
		cl_quit(c);
	} else if (!strncasecmp(s, "BAIL", 4)) {
		cl_last(c, s);
	} else if (!strncasecmp(s, "QUIT", 4)) {
		cl_req(c, "%s", s);
	} else if (!strcmp(s, "PUSH")) {
		/* a request in many pieces */
		cl_send(c, c->lines_planned, "P", 1);
		cl_send(c, 0, "USH 1", 5);
		cl_send(c, 0, "1\r", 2);
		cl_send(c, 0, "\n", 1);
		c->lines_planned++;
		cl_req(c, "[1] OK;cut\n");
		cl_quit(c);
	} else {
		cl_req(c, "%s", s);
		cl_pushs(c, "[1] OK;after\n");
		cl_quit(c);
	}
	cl_close(c);
	serve();
}
static void
sc_moin_args(void *arg)
{
	static const char *const req[] = {
		"MOIN 2 sess\r\n", "MOIN 1 sess\n", "MOIN 01 sess\r\n", "MOIN -1 sess\r\n", "MOIN 1 ab\r\n",
		"MOIN 1 0123456789012345678901234567890123456789012345678901234567890123\r\n",
		"MOIN 1 %s%n%x\r\n", "MOIN 1 !\"#$&'()*+,-./:;<=>?@[]^_`{|}~\r\n", "MOIN 0 s\r\n", "MOIN\r\n", "MOIN 1\r\n",
		"moin 1 s1\r\n", "Moin 17 s1\r\n", "MOIN one s1\r\n", "MOIN\t1\ts1\r\n", "MOIN  1 \t s1 \r\n",
		"MOI 1 s1\r\n", "MO 1 s1\r\n", "M\r\n", "PIN 1\r\n", "P\r\n", "QUI\r\n", "Q\r\n", "BAI\r\n", " MOIN 1 s1\r\n", "MOIN 1 s1 s2\r\n",
	};
	int r = mc_choose_free((int)(sizeof(req) / sizeof(*req)), "MOIN request");
	int ok = r <= 2 || (r >= 4 && r <= 7) || r == 11 || r == 12 || r == 14 || r == 15;
	client *c;

	base();
	(void)arg;
	c = cl_new("a", "pa");
	cl_conn(c);
	cl_send(c, 0, req[r], strlen(req[r]));
	c->lines_planned++;
	if (!ok)
		cl_moin(c);
	cl_pushs(c, "[1] OK;moin\n");
	cl_quit(c);
	cl_close(c);
	serve();
}

/* --------------------------------- C07: segmentation, pipelining, back-pressure */
static size_t
session_text(char *b, size_t n, int which)
{
	switch (which) {
	case 0:
		return (size_t)snprintf(b, n, "MOIN 1 sess0\r\nPUSH 11\r\n[1] OK;one\nPUSH 11\r\n[1] NO;two\n"
		    "NOOP\r\nPUSH x\r\nPUSH 13\n[1] OK;three\nQUIT\r\n");
	case 1:
		return (size_t)snprintf(b, n, "PUSH 5\r\nMOIN 0 x\r\nMOIN 1 s\nPUSH 11\r\n[1] OK;aaa\nFOO\r\nPUSH 14\r\n"
		    "[1] QA;\\n bbb\nNOOP\nQUIT\n");
	default: {
		/* longer than one read buffer: lines and commands straddle it */
		size_t l, i;

		l = (size_t)snprintf(b, n, "MOIN 1 ");
		for (i = 0; i < 60; i++) b[l++] = 's';
		l += (size_t)snprintf(b + l, n - l, "\r\nPUSH 151\r\n[1] OK;");
		for (i = 0; i < 143; i++) b[l++] = 'y';
		b[l++] = '\n';
		l += (size_t)snprintf(b + l, n - l, "PUSH 11\r\n[1] OK;one\nQUIT\r\n");
		return l;
	}
	}
}
static void
sc_cuts(void *arg)
{
	char b[1000];
	size_t n, cuts[3];
	int nc = ARG & 0xf, which = (ARG >> 4) & 0xf, i;
	client *c;

	base();
	n = session_text(b, sizeof(b), which);
	c = cl_new("a", "pa");
	cl_conn(c);
	cl_send(c, 0, b, n);
	for (i = 0; i < nc; i++) {
		size_t from = i ? cuts[i - 1] : 0;
		int room = (int)(n - from);

		if (room > 255 && i + 1 < nc) room = 255;
		if (room > 250) {
			int hi = mc_choose_free((room + 249) / 250, "cut (coarse)");
			int lo = mc_choose_free(room - 250 * hi < 250 ? room - 250 * hi : 250, "cut");
			cuts[i] = from + (size_t)(hi * 250 + lo);
		} else
			cuts[i] = from + (size_t)mc_choose_free(room, "cut");
	}
	cl_split(c, 1, cuts, nc);
	c->lines_planned = 99;
	cl_step(c, ST_CN, 0);
	c->st[c->nst - 1].await_cn = 1;
	serve();
}
/* uniform segments of every size, combined with all ways of coalescing */
static void
sc_chunks(void *arg)
{
	char b[1000];
	size_t n, sz, i;
	int coal;
	client *c;

	base();
	n = session_text(b, sizeof(b), ARG);
	sz = 1 + (size_t)mc_choose_free(40, "segment size");
	coal = mc_choose_free(4, "segments arriving together");
	while (n / sz > 80)
		sz++;
	c = cl_new("a", "pa");
	cl_conn(c);
	for (i = 0; i < n; i += sz)
		cl_send(c, 0, b + i, n - i < sz ? n - i : sz);
	if (coal == 1) W.k_wantread = 1;
	if (coal == 2) c->c->window = 40;
	cl_step(c, ST_CN, 0);
	c->st[c->nst - 1].await_cn = 1;
	if (coal == 2) {
		/* the peer's receive window opens in steps of a few bytes */
		int k;

		for (k = 0; k < 12; k++) {
			cl_step(c, ST_WINDOW, 0);
			c->st[c->nst - 1].arg = 23;
			c->st[c->nst - 1].hard = 1;
		}
		cl_step(c, ST_WINDOW, 0);
		c->st[c->nst - 1].arg = -1;
		c->st[c->nst - 1].hard = 1;
		/* the close comes last */
		{
			step t = c->st[c->nst - 14];
			memmove(&c->st[c->nst - 14], &c->st[c->nst - 13], sizeof(step) * 13);
			c->st[c->nst - 1] = t;
		}
	}
	serve();
}
/*
 * Whole dialogues in a single record (or two): whatever the reader doesn't take
 * out of a record at once stays in libssl, without any readiness notification.
 * Every alignment of line ends and data ends with the reader's buffer is tried.
 */
static void
sc_records(void *arg)
{
	static const size_t psz[] = { 7, 11, 100, 118, 119, 120, 128, 129, 246, 256, 300, 700 };
	static char b[4000];
	size_t l, i, total, ml, pn, cut[1];
	int k, n_push, tail;
	client *c;

	base();
	ml = ARG == 0 ? 12 + (size_t)mc_choose_free(134, "length of the MOIN line")
	    : (size_t[]) { 14, 127, 128, 129 }[mc_choose_free(4, "length of the MOIN line")];
	k = mc_choose_free(sizeof(psz) / sizeof(*psz), "size of the command");
	tail = mc_choose_free(3, "following requests");
	pn = psz[k];
	l = (size_t)snprintf(b, sizeof(b), "MOIN 1 ");
	while (l < ml - 2) b[l++] = 's';
	b[l++] = '\r', b[l++] = '\n';
	for (n_push = 0; n_push < 2; n_push++) {
		l += (size_t)snprintf(b + l, sizeof(b) - l, "PUSH %zu\r\n", pn);
		total = l + pn - 1;
		l += (size_t)snprintf(b + l, sizeof(b) - l, "[1] OK;");
		if (l > total) { /* too short: refused data */
			l = total + 1 - pn;
			while (l < total) b[l++] = 'z';
		}
		while (l < total) b[l++] = (char)('a' + n_push);
		b[l++] = '\n';
		if (tail == 1)
			l += (size_t)snprintf(b + l, sizeof(b) - l, "NOOP\r\n");
		if (tail == 2)
			break;
	}
	c = cl_new("a", "pa");
	cl_conn(c);
	i = l;
	l += (size_t)snprintf(b + l, sizeof(b) - l, "QUIT\r\n");
	cl_send(c, 0, b, l);
	if (ARG == 1) {
		int hi = mc_choose_free((int)(l / 200) + 1, "cut (coarse)");

		cut[0] = (size_t)(hi * 200 + mc_choose_free(200, "cut"));
		if (cut[0] >= l || cut[0] == 0)
			mc_abandon();
		cl_split(c, 1, cut, 1);
	}
	c->lines_planned = 99;
	cl_step(c, ST_CN, 0);
	c->st[c->nst - 1].await_cn = 1;
	serve();
}
/* every write may block, key updates and partial records anywhere */
static void
sc_block(void *arg)
{
	client *c;
	int pipe = ARG & 1;

	base();
	W.k_write_choices = 1;
	if (ARG & 2) W.k_wantread = 1;
	if (ARG & 4) W.k_recmax = 7;
	c = cl_new("a", "pa");
	cl_conn(c);
	if (ARG & 8) { /* key updates between the pieces of pipelined requests */
		char b[1000];
		size_t n = session_text(b, sizeof(b), 0), o, cuts[] = { 14, 34, 60, 77, n };
		int i;

		for (i = 0, o = 0; i < 5; o = cuts[i++]) {
			cl_send(c, 0, b + o, cuts[i] - o);
			if (i < 4) {
				cl_step(c, ST_KU, 0);
				c->st[c->nst - 1].hard = 1;
			}
		}
		cl_step(c, ST_CN, 0);
		c->st[c->nst - 1].await_cn = 1;
	} else if (pipe) {
		char b[1000];
		size_t n = session_text(b, sizeof(b), 0);
		size_t cuts[] = { 14, 23, 34, 43, 54, 60, 68, 77, 90 };

		cl_send(c, 0, b, n);
		cl_split(c, 1, cuts, 9);
		cl_step(c, ST_CN, 0);
		c->st[c->nst - 1].await_cn = 1;
	} else {
		cl_moin(c);
		cl_step(c, ST_PART, 0);
		cl_step(c, ST_KU, 0);
		cl_pushs(c, "[1] OK;one\n");
		cl_step(c, ST_KU, 0);
		cl_pushs(c, "[1] NO;two\n");
		cl_req(c, "NOOP\r\n");
		cl_step(c, ST_KU, 0);
		cl_quit(c);
		cl_close(c);
	}
	serve();
}
/* a client that pipelines requests and does not read for a while */
static void
sc_noread(void *arg)
{
	client *c, *g;
	int i;

	base();
	if (ARG & 2) W.k_recmax = 5;
	c = cl_new("a", "pa");
	c->c->window = 120 + 40 * mc_choose_free(8, "receive window");
	cl_conn(c);
	cl_sends(c, 0, "MOIN 1 sess\r\n");
	for (i = 0; i < 12; i++)
		cl_sends(c, 0, i % 3 == 0 ? "NOOP\r\n" : i % 3 == 1 ? "PUSH 11\r\n[1] OK;%03d\n" : "NONSENSE%d\r\n", i);
	if (ARG & 1)
		cl_sends(c, 0, "QUIT\r\n");
	g = good("b", "pb", "[1] OK;good\n");
	g->st[0].at = 2;
	if (ARG & 2) /* bit by bit */
		for (i = 0; i < 6; i++) {
			cl_step(c, ST_WINDOW, 0);
			c->st[c->nst - 1].arg = 31 + 3 * i;
			c->st[c->nst - 1].at = 3 + i / 4.0;
			c->st[c->nst - 1].hard = 1;
		}
	cl_step(c, ST_WINDOW, 0);
	c->st[c->nst - 1].arg = -1;
	c->st[c->nst - 1].at = 5;
	c->st[c->nst - 1].hard = 1;
	if (!(ARG & 1))
		cl_sends(c, 0, "QUIT\r\n");
	cl_step(c, ST_CN, 0);
	c->st[c->nst - 1].await_cn = 1;
	serve();
}

/* ------------------------------------------------- C01: authorization */
static void
push_raw(client *c, const char *p, size_t n)
{
	cl_push(c, p, n);
}
static void
sc_authz(void *arg)
{
	static const struct { const char *p; size_t n; } tail[] = {
		{ "\n", 1 }, { "", 0 }, { "\n\n", 2 }, { "\n[1] NO;x\n", 10 }, { "\n\0[1] NO;x\n", 11 },
		{ "\0\n", 2 }, { "\0[1] NO\n", 8 }, { "\r\n", 2 }, { "\n\0", 2 }, { "\n\0\n", 3 }, { "\n\r", 2 },
		{ " NO\n", 4 }, { "\nOK\n", 4 },
	};
	static const char *const head[] = {
		"[1] ", "[1]", "[1]\t ", "[1700000000] ", "", "] ", "x] ", "[1", "[1] [2] ", "[] ", " [1] ", "NO] ",
		"1] ", "[1]\n", "NO;[1] ", "[1] 0", "[1] 9 ", "[1]7", "[1] -", "[1] ;", "[1] [", "[1] ]", "[1]\r", "[1]\v\f ", "[1]\xa0", "[x] ", "[1 ] ", "[-1] ",
		"[[1] ", "[1]] ", "[1]\t\t  \t", "[1] \"", "[1] $", "[1] ^", "[1] .", "\t[1] ", "[1] o",
	};
	static const char *const body[] = {
		"OK;yes", "NO;no", "OK", "XOK;yes", "NO;OK;yes", "QA;mine", "QB;other", "O", "", "OK\\nNO",
		"] OK;yes", "[9] OK;x", "NO;]OK;x", "ok;lower", "PROCESS_FILE;/etc/passwd;1", "OK;\1\377bin",
	};
	char b[400];
	size_t n;
	int h, t, w, u;
	static const char *const ids[] = { "a", "b", "nobody", "*" };
	static const char *const pws[] = { "pa", "pb", "pstar", "pstar" };
	client *c;

	base();
	SCONF.u[2] = (user){ .id = "*", .pw = "pstar", .cmds = { "QS.*", "O", NULL } };
	u = mc_choose_free(ARG ? 4 : 1, "identity");
	h = mc_choose_free((int)(sizeof(head) / sizeof(*head)), "head");
	w = mc_choose_free((int)(sizeof(body) / sizeof(*body)), "body");
	t = mc_choose_free((int)(sizeof(tail) / sizeof(*tail)), "tail");
	n = (size_t)snprintf(b, sizeof(b), "%s%s", head[h], body[w]);
	memcpy(b + n, tail[t].p, tail[t].n);
	n += tail[t].n;
	if (n == 0) { b[0] = '\n'; n = 1; }
	c = cl_new(ids[u], pws[u]);
	cl_conn(c);
	cl_moin(c);
	push_raw(c, b, n);
	cl_pushs(c, "[2] OK;probe\n");
	cl_quit(c);
	cl_close(c);
	serve();
}
/* something is wrong far behind the start */
static void
sc_authz_far(void *arg)
{
	static const int sizes[] = { 200, 600, 1025, 1030, 2100, 4095, 4096, 4097, 8193, 16384 };
	static const int pos[] = { 60, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049,
		4093, 4094, 4095, 4096, 4097, 8190, 8191, 8192, 16370, 16380, 16381, 16382 };
	static const struct { const char *p; size_t n; } wrong[] = {
		{ "!", 1 }, { "\0", 1 }, { "\n", 1 }, { "\n[", 2 }, { "\n[1] NO;x\n", 11 }, { "\0[1] NO;x\n", 11 }, { "\n[1] OK;x\n", 11 },
		{ "\n\0", 2 }, { "\n\0[1] NO;x\n", 12 }, { "\n\0\n", 3 }, { "\0\n", 2 },
	};
	static const char *const head[] = { "[1] QX;", "[1] OK;", "[1] PROCESS_HOST_CHECK_RESULT;h;0;", "[1] PROCESS_SERVICE_CHECK_RESULT;h;s;0;",
		"[1] PROCESS_HOST_CHECK_RESULT;", "[1] PROCESS_SERVICE_CHECK_RESULT;h;" };
	int size = sizes[mc_choose_free((int)(sizeof(sizes) / sizeof(*sizes)), "size")], h = mc_choose_free(6, "head"), k, w;
	size_t n, i;
	client *c;
	char *b;

	base();
	(void)arg;
	SCONF.u[0] = (user){ .id = "a", .pw = "pa", .cmds = { "QX[^!]*", "OK[^!]*", NULL }, .hosts = { "h", "x+" }, .svcs = { "s@h", "x+@h", NULL } };
	k = mc_choose_free((int)(sizeof(pos) / sizeof(*pos)) + 2, "position");
	w = mc_choose_free((int)(sizeof(wrong) / sizeof(*wrong)), "what's wrong");
	b = mkcmd(head[h], 'x', (size_t)size, &n);
	memset(b + strlen(head[h]), 'x', n - 1 - strlen(head[h]));
	if (h >= 4) /* a long name */
		memcpy(b + n - 5, ";0;x\n", 5);
	i = k == 0 ? n - 1 : k == 1 ? n - 2 : (size_t)pos[k - 2];
	if (i + wrong[w].n > n) {
		free(b);
		return;
	}
	memcpy(b + i, wrong[w].p, wrong[w].n);
	c = cl_new("a", "pa");
	cl_conn(c);
	cl_moin(c);
	push_raw(c, b, n);
	free(b);
	cl_pushs(c, "[2] OK;probe\n");
	cl_quit(c);
	cl_close(c);
	serve();
}
/* sections: who gets which rights */
/* log messages name the client they're about */
static void
check_log_id(const client *c)
{
	char b[1200];
	int n = snprintf(b, sizeof(b), "%s@", c->id);

	if (SCONF.loglevel >= 4 && c->c->handshaken && c->c->out.n && memmem(W.log.n ? W.log.p : "", W.log.n, b, (size_t)n) == NULL)
		mc_fail("the client %s doesn't appear in the log", c->id);
}
static void
sc_authz_ids(void *arg)
{
	static const char *const ids[] = { "a", "b", "c", "*", "A", "a ", "", "unknown", "a\xc3\xa4", "**", "default" };
	static const char *const pws[] = { "pa", "pb", "pc", "pstar", "", "pA", "p" };
	static const char *const cmds[] = { "[1] QA;1\n", "[1] QB;1\n", "[1] QC;1\n", "[1] QS;1\n", "[1] QG;1\n",
		"[1] PROCESS_HOST_CHECK_RESULT;h;0;x\n", "[1] PROCESS_SERVICE_CHECK_RESULT;h;s;0;x\n" };
	int i = mc_choose_free(11, "identity"), p = mc_choose_free(7, "password"), k;
	int star = mc_choose_free(2, "fallback section");
	client *c;
	user *u = NULL;
	int q;

	srv_reset();
	(void)arg;
	SCONF.loglevel = 5;
	SCONF.u[0] = (user){ .id = "a", .pw = "pa", .cmds = { "QA.*", NULL } };
	SCONF.u[1] = (user){ .id = "b", .pw = "pb", .cmds = { "QB.*", NULL }, .hosts = { "h", NULL } };
	SCONF.u[2] = (user){ .id = "c", .pw = "pc", .svcs = { "s", NULL } };
	if (star)
		SCONF.u[3] = (user){ .id = "*", .pw = "pstar", .cmds = { "QS.*", NULL } };
	for (q = 0; q < 6 && SCONF.u[q].id; q++)
		if (!strcmp(SCONF.u[q].id, ids[i]))
			u = &SCONF.u[q];
	if (u == NULL && star)
		u = &SCONF.u[3];
	c = cl_new(ids[i], pws[p]);
	cl_conn(c);
	if (u == NULL || strcmp(u->pw, pws[p]) || !*pws[p]) {
		/* must be refused */
		cl_sends(c, 0, "MOIN 1 sess\r\n");
		c->aborted = 1;
		c->no_transcript = 1;
		cl_sends(c, 0, "PUSH 9\r\n");
		cl_sends(c, 0, "[1] QA;1\n");
		serve();
		if (c->c->handshaken || c->c->out.n)
			mc_fail("client with identity '%s' and password '%s' was served", ids[i], pws[p]);
		return;
	}
	cl_moin(c);
	for (k = 0; k < 7; k++)
		cl_pushs(c, "%s", cmds[k]);
	cl_quit(c);
	cl_close(c);
	serve();
	if (!c->c->handshaken && !(sim_tls && !*ids[i])) /* OpenSSL clients can't present an empty identity */
		mc_fail("client with identity '%s' and the correct password was refused", ids[i]);
	check_log_id(c);
}
/* one after the other, whose names resemble each other */
static void
sc_authz_seq(void *arg)
{
	static const char *const ids[] = { "a", "ab", "abc", "A", "b", "unknown", "*" };
	static const char *const pws[] = { "pa", "pab", "pabc", "pA", "pb", "pstar", "pstar" };
	static const char *const cmds[] = { "[1] Qa;1\n", "[1] Qab;1\n", "[1] Qabc;1\n", "[1] QA;1\n", "[1] Qb;1\n", "[1] Q*;1\n" };
	int k, j, i, p, n = mc_tier_thorough() ? 4 : 3;
	client *c[4];

	(void)arg;
	srv_reset();
	SCONF.u[0] = (user){ .id = "a", .pw = "pa", .cmds = { "Qa;.*", NULL } };
	SCONF.u[1] = (user){ .id = "ab", .pw = "pab", .cmds = { "Qab;.*", NULL } };
	SCONF.u[2] = (user){ .id = "abc", .pw = "pabc", .cmds = { "Qabc;.*", NULL } };
	SCONF.u[3] = (user){ .id = "A", .pw = "pA", .cmds = { "QA;.*", NULL } };
	SCONF.u[4] = (user){ .id = "b", .pw = "pb", .cmds = { "Qb;.*", NULL } };
	SCONF.u[5] = (user){ .id = "*", .pw = "pstar", .cmds = { "Q[*];.*", NULL } };
	for (k = 0; k < n; k++) {
		i = mc_choose_free(7, "identity");
		p = mc_choose_free(2, "password") ? i : (i + 1) % 5;
		if (k == n - 1 && p != i)
			p = i; /* the last one has a session in any case */
		c[k] = cl_new(ids[i], pws[p]);
		cl_conn(c[k]);
		c[k]->st[0].at = 1 + k;
		if (p == i) {
			cl_moin(c[k]);
			for (j = 0; j < 6; j++)
				cl_pushs(c[k], "%s", cmds[j]);
			cl_quit(c[k]);
			cl_close(c[k]);
		} else
			c[k]->aborted = 1;
	}
	serve();
	for (k = 0; k < n; k++)
		if (c[k]->aborted && c[k]->c->out.n)
			mc_fail("client %d with a wrong password was served", k);
}
/* IDs and passwords which agree in a long prefix, or in everything but the first character */
static void
sc_authz_prefix(void *arg)
{
	static const int len[] = { 1, 7, 8, 15, 16, 31, 32, 33, 63, 64, 65, 79, 99, 126, 127, 128 };
	static char id[3][200], pw[3][300], cm[3][20];
	int l = len[mc_choose_free((int)(sizeof(len) / sizeof(*len)), "common part")], how = mc_choose_free(4, "where they differ"), i, j, k, n;
	client *c[4];

	(void)arg;
	srv_reset();
	for (i = 0; i < 3; i++) {
		memset(id[i], 'i', sizeof(id[i]));
		memset(pw[i], 'p', sizeof(pw[i]));
		switch (how) {
		case 0: id[i][l] = pw[i][l] = (char)('0' + i); id[i][l + 1] = pw[i][l + 1] = '\0'; break;  /* the last character */
		case 1: id[i][0] = pw[i][0] = (char)('0' + i); id[i][l + 1] = pw[i][l + 1] = '\0'; break;  /* the first */
		case 2: id[i][l + i] = pw[i][l + i] = '\0'; break;                                          /* the length */
		case 3: id[i][l] = (char)('0' + i); pw[i][l + 90] = (char)('0' + i); id[i][l + 1] = pw[i][l + 91] = '\0'; break; /* long passwords */
		}
		snprintf(cm[i], sizeof(cm[i]), "Q%d;.*", i);
		SCONF.u[i] = (user){ .id = id[i], .pw = pw[i], .cmds = { cm[i], NULL } };
	}
	n = mc_tier_thorough() ? 3 : 2;
	for (k = 0; k < n; k++) {
		i = mc_choose_free(3, "identity");
		j = mc_choose_free(3, "password");
		c[k] = cl_new(id[i], pw[j]);
		cl_conn(c[k]);
		c[k]->st[0].at = 1 + k;
		if (i == j) {
			cl_moin(c[k]);
			for (j = 0; j < 3; j++)
				cl_pushs(c[k], "[1] Q%d;%d\n", j, k);
			cl_quit(c[k]);
			cl_close(c[k]);
		} else
			c[k]->aborted = 1;
	}
	serve();
	for (k = 0; k < n; k++)
		if (c[k]->aborted && c[k]->c->out.n)
			mc_fail("client %d with a wrong password was served", k);
}
/* many sections */
static void
sc_authz_many(void *arg)
{
	static const int sizes[] = { 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 31, 32, 33, 64, 100, 127, 128, 129, 200, 255, 256, 257, 300 };
	static char raw[40000];
	int n = sizes[mc_choose_free((int)(sizeof(sizes) / sizeof(*sizes)), "sections")], k, i;
	int who = mc_choose_free(5, "who"), global = mc_choose_free(2, "where the setting is"), star = mc_choose_free(2, "fallback section");
	static char id[40], pw[40], cm[40];
	char *p = raw;
	client *c;

	(void)arg;
	srv_reset();
	p += sprintf(p, "command_file = \"" SIM_FIFO "\"\ntemp_directory = \"" SIM_TMP "\"\nlisten = \"127.0.0.1\"\n");
	if (global)
		p += sprintf(p, "hosts = \"gh\"\n");
	for (i = 0; i < n; i++)
		p += sprintf(p, "authorize \"client-%d\" { password = \"pw-%d\" commands = \"Q%d;.*\" }\n", i, i, i);
	if (star)
		p += sprintf(p, "authorize \"*\" { password = \"pstar\" commands = \"QS;.*\" }\n");
	SCONF.raw = raw;
	k = who == 0 ? 0 : who == 1 ? n - 1 : who == 2 ? n / 2 : who == 3 ? n / 3 : n;
	snprintf(id, sizeof(id), "client-%d", k);
	snprintf(pw, sizeof(pw), k == n ? "pstar" : "pw-%d", k);
	snprintf(cm, sizeof(cm), "Q%d;.*", k);
	i = 0;
	if (k < n)
		SCONF.u[i++] = (user){ .id = id, .pw = pw, .cmds = { cm, NULL }, .hosts = { global ? "gh" : NULL, NULL } };
	if (star)
		SCONF.u[i++] = (user){ .id = "*", .pw = "pstar", .cmds = { "QS;.*", NULL }, .hosts = { global ? "gh" : NULL, NULL } };
	c = cl_new(id, pw);
	cl_conn(c);
	if (k == n && !star) {
		c->aborted = 1;
	} else {
		cl_moin(c);
		for (i = k > 2 ? k - 2 : 0; i < k + 2; i++)
			cl_pushs(c, "[1] Q%d;x\n", i);
		cl_pushs(c, "[1] QS;x\n");
		cl_pushs(c, "[1] PROCESS_HOST_CHECK_RESULT;gh;0;x\n");
		cl_quit(c);
		cl_close(c);
	}
	serve();
	if (c->aborted ? c->c->out.n > 0 : !c->c->handshaken)
		mc_fail("client %s was %s", id, c->aborted ? "served" : "refused");
}
/* two clients with different rights, all interleavings up to the bound */
static void
sc_authz_two(void *arg)
{
	client *c, *d;
	int x = ARG;

	base();
	c = cl_new("a", "pa");
	cl_conn(c);
	if (x & 1) cl_req(c, "MOIN 1 b\r\n"); else cl_moin(c);
	cl_pushs(c, "[1] QA;first\n");
	cl_pushs(c, "[1] QB;forbidden\n");
	d = cl_new("b", "pb");
	cl_conn(d);
	if (x & 1) cl_req(d, "MOIN 1 a\r\n"); else cl_moin(d);
	cl_pushs(d, "[1] QA;forbidden\n");
	cl_pushs(d, "[1] QB;second\n");
	if (x & 2) {
		sever(c, ST_RST);
		cl_quit(d);
		cl_close(d);
	} else {
		cl_quit(c);
		cl_close(c);
		cl_quit(d);
		cl_close(d);
	}
	serve();
}
/* the identity of an earlier connection must not leak into a later one */
static void
sc_authz_reuse(void *arg)
{
	client *c, *d, *e;
	(void)arg;
	base();
	c = cl_new("a", "pa");
	cl_conn(c);
	cl_moin(c);
	cl_sends(c, c->lines_planned, "PUSH 9\r\n");
	c->lines_planned++;
	cl_sends(c, c->lines_planned, "[1] Q");
	sever(c, mc_choose_free(2, "how it ends") ? ST_FIN : ST_RST);
	d = cl_new("b", "pb");
	cl_conn(d);
	d->st[0].at = 1;
	cl_moin(d);
	cl_pushs(d, "[1] QA;1\n");
	cl_pushs(d, "[1] QB;1\n");
	cl_quit(d);
	cl_close(d);
	e = cl_new("b", "wrong");
	cl_conn(e);
	e->st[0].at = 1;
	e->aborted = 1;
	serve();
	if (e->c->out.n)
		mc_fail("an unauthenticated client was served");
}

/* ----------------------------- C02: configured patterns and their meaning */
typedef struct { const char *text; user u[4]; } cfgcase;
static const char *const patterns[] = {
	"OK", "OK.*", ".*", "A|B", "A|BC", "(A|B)C", "A|B|", "OK;.+", "[A-C]+", "O?K", "^OK", "a{2,3}",
	"A\\.B", "A.B", "A;B|C;D", "OK;x|.*;y", "\\[x\\]", "X|^Y|Z", "(A)|(B)", "()", "A||B", "[[:upper:]]+;[0-9]+",
};
static const char *const subjects[] = {
	"OK", "OKAY", "XOK", "OK;x", "A", "B", "AB", "AC", "BC", "ABC", "C", "aa", "aaa", "aaaa", "A.B", "AxB",
	"A;B", "C;D", "A;B;x", "x;C;D", "OK;x;z", "q;y", "[x]", "X", "Y", "Z", "XY", "ZZ", "aX", "FOO;12", "FOO;1x", "",
	"K", "OOK", "A\nB",
};
static void
sc_patterns(void *arg)
{
	int p = mc_choose_free((int)(sizeof(patterns) / sizeof(*patterns)), "pattern");
	int i, n = (int)(sizeof(subjects) / sizeof(*subjects));
	int kind = mc_choose_free(3, "setting");
	client *c;

	srv_reset();
	(void)arg;
	SCONF.u[0] = (user){ .id = "a", .pw = "pa" };
	if (kind == 0)
		SCONF.u[0].cmds[0] = patterns[p];
	else if (kind == 1)
		SCONF.u[0].hosts[0] = patterns[p];
	else
		SCONF.u[0].svcs[0] = patterns[p];
	c = cl_new("a", "pa");
	cl_conn(c);
	cl_moin(c);
	for (i = 0; i < n; i++) {
		if (kind && strchr(subjects[i], ';'))
			continue;
		if (kind == 0)
			cl_pushs(c, "[1] %s\n", subjects[i]);
		else if (kind == 1)
			cl_pushs(c, "[1] PROCESS_HOST_CHECK_RESULT;%s;0;fine%d\n", subjects[i], i);
		else
			cl_pushs(c, "[1] PROCESS_SERVICE_CHECK_RESULT;host;%s;0;fine%d\n", subjects[i], i);
	}
	cl_quit(c);
	cl_close(c);
	serve();
}
/* service patterns with and without a host part */
static void
sc_services(void *arg)
{
	static const char *const pats[] = {
		"disk", "disk@web", "disk|load", "disk|load@web", "disk@web|db", "d@i@web", ".*@web", "disk@.*", "disk@",
		"@web", "(disk)@(web)", "disk@w.b", "[dl].*@db|web",
	};
	static const char *const svcs[] = { "disk", "load", "d@i", "diskx", "xdisk", "", "mem" };
	static const char *const hosts[] = { "web", "db", "webx", "xweb", "", "wxb" };
	int p = mc_choose_free((int)(sizeof(pats) / sizeof(*pats)), "pattern"), i, j;
	int two = mc_choose_free(2, "second pattern");
	client *c;

	srv_reset();
	(void)arg;
	SCONF.u[0] = (user){ .id = "a", .pw = "pa", .svcs = { pats[p], two ? "mem" : NULL, NULL } };
	c = cl_new("a", "pa");
	cl_conn(c);
	cl_moin(c);
	for (i = 0; i < 7; i++)
		for (j = 0; j < 6; j++)
			cl_pushs(c, "[1] PROCESS_SERVICE_CHECK_RESULT;%s;%s;0;%d-%d\n", hosts[j], svcs[i], i, j);
	cl_pushs(c, "[1] PROCESS_SERVICE_CHECK_RESULT;web;disk;0\n");
	cl_pushs(c, "[1] PROCESS_HOST_CHECK_RESULT;web;0;disk\n");
	cl_pushs(c, "[1] disk\n");
	cl_quit(c);
	cl_close(c);
	serve();
}
/* patterns apply to their fields only, whatever the other fields contain */
static void
sc_fields(void *arg)
{
	static const char *const hp[] = { "web", ".*", ".+", ".*b", "w.*", "[^x]*", "web.*", ".*\\.net", "web|.*\\.net", "(.*;)?web", "[^ ]+", "evil;0;web",
		"web;0", "w(.*)b", ".*;web" };
	static const char *const sp[] = { "disk", ".*", ".+", ".*k", "d.*", "disk@web", "disk@.*", ".*@web", ".+@w.*", ".*k@.*b", "[^x]*", "disk|.*load@.*\\.net",
		"(.*;)?disk", "disk@(.*;)?web", "0;disk", "disk;0", "disk@evil;0", ".*;disk", "(evil|disk)@web" };
	static const char *const host[] = { "web", "evil", "evil.net", "", "my web", "w\xc3\xa4""b", "10.0.0.1:80/x", "web;", "WEB" };
	static const char *const svc[] = { "disk", "evil", "disk load", "/", "d\xc3\xafsk", "", "disk;", "UP_1-2%&" };
	static const char *const rest[] = { "0;fine", "0;disk;0;x", "0;web;disk;0;x", "0;web;0;x", "disk;0;x", "web;0;x", ";disk;0;x", "0;x;disk;0;x\\nweb", "0",
		"0;", ";", "0;;", ";;;", "0;a.net;x", "0;a.net", "web" , "disk" };
	int service = mc_choose_free(2, "hosts/services"), p = mc_choose_free(service ? 19 : 15, "pattern"), h = mc_choose_free(9, "host"), i, j;
	client *c;

	srv_reset();
	(void)arg;
	SCONF.u[0] = (user){ .id = "a", .pw = "pa" };
	(service ? SCONF.u[0].svcs : SCONF.u[0].hosts)[0] = service ? sp[p] : hp[p];
	c = cl_new("a", "pa");
	cl_conn(c);
	cl_moin(c);
	for (j = 0; j < 17; j++) {
		for (i = 0; i < 8; i++)
			cl_pushs(c, "[1] PROCESS_SERVICE_CHECK_RESULT;%s;%s;%s\n", host[h], svc[i], rest[j]);
		cl_pushs(c, "[1] PROCESS_HOST_CHECK_RESULT;%s;%s\n", host[h], rest[j]);
	}
	cl_pushs(c, "[1] XPROCESS_HOST_CHECK_RESULT;web;0;x\n");
	cl_pushs(c, "[1] PROCESS_HOST_CHECK_RESULTS;web;0;x\n");
	cl_pushs(c, "[1] process_host_check_result;web;0;x\n");
	cl_pushs(c, "[1] ;PROCESS_HOST_CHECK_RESULT;web;0;x\n");
	cl_pushs(c, "[1] PROCESS_FILE;PROCESS_HOST_CHECK_RESULT;web;0;x\n");
	cl_pushs(c, "[1] PROCESS_HOST_CHECK_RESULT;web\n");
	cl_pushs(c, "[1] PROCESS_SERVICE_CHECK_RESULT;web;disk\n");
	cl_pushs(c, "[1] web\n");
	cl_pushs(c, "[1] disk\n");
	cl_quit(c);
	cl_close(c);
	serve();
}
/* global fallbacks, several sections, section order, quoting */
static void
sc_fallback(void *arg)
{
	static char raw[4000];
	int gp = mc_choose_free(2, "global password"), gc = mc_choose_free(2, "global commands");
	int gh = mc_choose_free(2, "global hosts"), gs = mc_choose_free(2, "global services");
	int own = mc_choose_free(16, "own settings"), order = mc_choose_free(2, "order");
	char g[1000] = "", s[1000] = "", *e;
	user *u = &SCONF.u[0];
	client *c;
	const char *cmds[] = { "[1] GC;1\n", "[1] SC;1\n", "[1] PROCESS_HOST_CHECK_RESULT;gh;0;x\n",
	    "[1] PROCESS_HOST_CHECK_RESULT;sh;0;x\n", "[1] PROCESS_SERVICE_CHECK_RESULT;h;gs;0;x\n",
	    "[1] PROCESS_SERVICE_CHECK_RESULT;h;ss;0;x\n", "[1] XX\n" };
	int i, k;

	srv_reset();
	(void)arg;
	if (!gp && !(own & 1))
		return; /* not a valid configuration; see C16 */
	*u = (user){ .id = "a" };
	e = g;
	if (gp) e += sprintf(e, "password = \"gpw\"\n");
	if (gc) e += sprintf(e, "commands = \"GC.*\"\n");
	if (gh) e += sprintf(e, "hosts = \"gh\"\n");
	if (gs) e += sprintf(e, "services = \"gs\"\n");
	e = s;
	e += sprintf(e, "authorize \"a\" {\n");
	if (own & 1) e += sprintf(e, " password = \"spw\"\n");
	if (own & 2) e += sprintf(e, " commands = \"SC.*\"\n");
	if (own & 4) e += sprintf(e, " hosts = \"sh\"\n");
	if (own & 8) e += sprintf(e, " services = \"ss\"\n");
	e += sprintf(e, "}\nauthorize \"other\" { password = \"po\" commands = \"XX\" hosts = { \"sh\", \"gh\" } }\n");
	snprintf(raw, sizeof(raw), "command_file = \"" SIM_FIFO "\"\ntemp_directory = \"" SIM_TMP "\"\nlisten = \"127.0.0.1\"\n%s%s",
	    order ? s : g, order ? g : s);
	SCONF.raw = raw;
	u->pw = own & 1 ? "spw" : "gpw";
	if (own & 2) u->cmds[0] = "SC.*"; else if (gc) u->cmds[0] = "GC.*";
	if (own & 4) u->hosts[0] = "sh"; else if (gh) u->hosts[0] = "gh";
	if (own & 8) u->svcs[0] = "ss"; else if (gs) u->svcs[0] = "gs";
	SCONF.u[1] = (user){ .id = "other", .pw = "po", .cmds = { "XX", NULL }, .hosts = { "sh", "gh", NULL } };
	if (gs) SCONF.u[1].svcs[0] = "gs";
	for (k = 0; k < 2; k++) {
		c = cl_new(SCONF.u[k].id, SCONF.u[k].pw);
		cl_conn(c);
		cl_moin(c);
		for (i = 0; i < 7; i++)
			cl_pushs(c, "%s", cmds[i]);
		cl_quit(c);
		cl_close(c);
	}
	serve();
	for (k = 0; k < 2; k++)
		if (!CL[k].c->handshaken)
			mc_fail("client %s with its effective password was refused", CL[k].id);
}

/* ------------------------------------------- C03/C04/C12: delivery */
static int nagios_flips, nagios_max;
enum { E_NAGIOS_DOWN = 200, E_NAGIOS_UP, E_FIFO_RM, E_FIFO_MK };
static int
nagios_events(envevent *ev, int max)
{
	int n = 0;

	if (max < 2)
		return 0;
	if (!W.fifo_reader || !W.fifo_exists || !W.fifo_is_fifo) {
		ev[n].kind = E_NAGIOS_UP;
		ev[n++].label = "Nagios starts";
	} else if (nagios_flips < nagios_max) {
		ev[n].kind = E_NAGIOS_DOWN;
		ev[n++].label = "Nagios stops reading";
	}
	return n;
}
static int
nagios_apply(const envevent *e)
{
	switch (e->kind) {
	case E_NAGIOS_DOWN:
		nagios_flips++;
		W.fifo_reader = 0;
		W.fifo_used = 0;
		return 1;
	case E_NAGIOS_UP:
		W.fifo_reader = 1;
		W.fifo_exists = 1;
		W.fifo_is_fifo = 1;
		return 1;
	}
	return 0;
}
/* clients submit while Nagios goes away and comes back at any point */
static void
sc_nagios(void *arg)
{
	client *c;

	base();
	nagios_flips = 0;
	nagios_max = 1 + (ARG & 1);
	srv_more_events = nagios_events;
	srv_more_apply = nagios_apply;
	if (ARG & 2) { W.fifo_reader = 0; }
	if (ARG & 4) { W.fifo_exists = 0; }
	if (ARG & 32) { W.fifo_is_fifo = 0; }
	c = cl_new("a", "pa");
	cl_conn(c);
	cl_moin(c);
	cl_pushs(c, "[1] OK;one\n");
	cl_pushs(c, "[1] OK;two\n");
	if (ARG & 8) cl_big(c, "[1] OK;big", 'z', 5000);
	cl_pushs(c, "[1] OK;three\n");
	cl_quit(c);
	cl_close(c);
	if (ARG & 16)
		good("b", "pb", "[1] OK;other\n");
	serve();
}
/* Nagios down for all the submissions; then everything has to come out */
static void
sc_backlog(void *arg)
{
	static const size_t sz[] = { 11, 1000, 2048, 4085, 4086, 4095, 4096, 4097, 4107, 8191, 8192, 8193, 12000 };
	client *c;
	int i, k = ARG & 0xf;

	base();
	W.fifo_reader = 0;
	nagios_flips = nagios_max = 0;
	c = cl_new("a", "pa");
	cl_conn(c);
	cl_moin(c);
	for (i = 0; i < k; i++) {
		char p[30];

		snprintf(p, sizeof(p), "[%d] OK;", i);
		cl_big(c, p, (char)('p' + i), sz[mc_choose_free(13, "command size")]);
	}
	cl_quit(c);
	cl_close(c);
	{
		/* Nagios starts before the last retry */
		step *s;

		srv_settle = 45;
		cl_step(c, ST_NOP, 0);
		s = &c->st[c->nst - 1];
		s->at = 14;
		s->hard = 1;
		s->arg = 2;
	}
	if (ARG & 0x10) {
		/* ... and more commands come in while the backlog is written */
		client *d = cl_new("b", "pb");

		cl_conn(d);
		d->st[0].at = 20;
		cl_moin(d);
		cl_big(d, "[7] OK;", 'n', sz[mc_choose_free(13, "command size")]);
		cl_pushs(d, "[8] OK;last\n");
		cl_quit(d);
		cl_close(d);
	}
	serve();
}
/* commands of sizes around the atomicity limit, written directly or spooled */
static void
sc_sizes(void *arg)
{
	static const size_t sz[] = { 10, 2048, 4094, 4095, 4096, 4097, 8192, 8193 };
	client *c;
	int i, k = ARG & 0xf;

	base();
	c = cl_new("a", "pa");
	cl_conn(c);
	cl_moin(c);
	for (i = 0; i < k; i++) {
		char p[30];

		snprintf(p, sizeof(p), "[%d] OK;", i);
		cl_big(c, p, (char)('p' + i), sz[mc_choose_free(8, "command size")]);
	}
	cl_quit(c);
	cl_close(c);
	if (ARG & 0x20) {
		client *d = good("b", "pb", "[5] OK;small\n");
		(void)d;
	}
	if (ARG & 0x40)
		W.fifo_cap = 4096;
	if (ARG & 0x80)
		W.fifo_cap = 8192;
	if (ARG & 0x100) {
		nagios_flips = 0;
		nagios_max = 1;
		srv_more_events = nagios_events;
		srv_more_apply = nagios_apply;
	}
	serve();
}
/* large commands, and a large backlog of any number of commands */
static void
sc_large(void *arg)
{
	static const size_t sz[] = { 16385, 32768, 40000, 65535, 65536, 65537, 100000, 131072, 131073, 262145, 1048577, 1500000 };
	static const size_t each[] = { 20, 100, 500, 511, 1024, 2047, 4096, 4097, 8192, 16384 };
	static const int num[] = { 4, 8, 16, 17, 33, 65, 130 };
	int up = mc_choose_free(3, "Nagios"), i, n = 1;
	size_t size;
	client *c;

	if (ARG) {
		n = num[mc_choose_free(7, "number")];
		size = each[mc_choose_free(10, "command size")];
		if ((size_t)n * size > 300000)
			return;
	} else
		size = sz[mc_choose_free(12, "command size")];
	base();
	SCONF.maxcmd = 0;
	c = cl_new("a", "pa");
	cl_conn(c);
	cl_moin(c);
	for (i = 0; i < n; i++) {
		char p[30];

		snprintf(p, sizeof(p), "[%d] OK;", i);
		cl_big(c, p, (char)('a' + i % 26), size + (size_t)(i % 3));
	}
	cl_quit(c);
	cl_close(c);
	if (up < 2) {
		step *s;

		W.fifo_reader = 0;
		nagios_flips = nagios_max = 0;
		srv_settle = 45;
		cl_step(c, ST_NOP, 0);
		s = &c->st[c->nst - 1];
		s->at = 14;
		s->hard = 1;
		s->arg = 2;
		if (up == 1) {  /* another one while the backlog is written */
			client *d = cl_new("b", "pb");

			cl_conn(d);
			d->st[0].at = 20;
			cl_moin(d);
			cl_big(d, "[7] OK;", 'n', 3000);
			cl_big(d, "[7] OK;", 'o', 9000);
			cl_pushs(d, "[8] OK;last\n");
			cl_quit(d);
			cl_close(d);
		}
	}
	serve();
}
/* the pipe is full; Nagios drains it whenever it likes */
static void
sc_full(void *arg)
{
	client *c, *d;

	base();
	W.fifo_cap = 4096;
	c = cl_new("a", "pa");
	cl_conn(c);
	cl_moin(c);
	cl_big(c, "[1] OK;1", 'p', 3000);
	cl_big(c, "[1] OK;2", 'q', ARG & 1 ? 3000 : 1000);
	cl_big(c, "[1] OK;3", 'r', ARG & 2 ? 5000 : 2000);
	cl_pushs(c, "[1] OK;four\n");
	cl_quit(c);
	cl_close(c);
	if (ARG & 4) {
		d = cl_new("b", "pb");
		cl_conn(d);
		cl_moin(d);
		cl_big(d, "[1] OK;b1", 'B', 2500);
		cl_big(d, "[1] OK;b2", 'C', 2500);
		cl_quit(d);
		cl_close(d);
	}
	serve();
}
/* two or three clients at once */
static void
sc_clients(void *arg)
{
	static const char *const ids[] = { "a", "b", "a" };
	static const char *const pws[] = { "pa", "pb", "pa" };
	int i, n = ARG & 0xf;

	base();
	for (i = 0; i < n; i++) {
		client *c = cl_new(ids[i], pws[i]);

		cl_conn(c);
		cl_moin(c);
		cl_pushs(c, "[1] OK;client%d-1\n", i);
		if (ARG & 0x10) cl_big(c, i ? "[1] OK;y" : "[1] OK;x", (char)('s' + i), 4200);
		cl_pushs(c, "[1] NO;client%d-2\n", i);
		cl_pushs(c, "[1] OK;client%d-3\n", i);
		cl_quit(c);
		cl_close(c);
	}
	serve();
}
/* same command submitted several times: all copies count */
static void
sc_dupes(void *arg)
{
	int i;
	(void)arg;
	base();
	for (i = 0; i < 2; i++) {
		client *c = cl_new(i ? "b" : "a", i ? "pb" : "pa");

		cl_conn(c);
		cl_moin(c);
		cl_pushs(c, "[1] OK;same\n");
		cl_pushs(c, "[1] OK;same\n");
		cl_quit(c);
		cl_close(c);
	}
	nagios_flips = 0;
	nagios_max = 1;
	srv_more_events = nagios_events;
	srv_more_apply = nagios_apply;
	serve();
}
/* the submitter disappears right after (or in the middle of) its submission */
static void
sc_vanish(void *arg)
{
	client *c;
	static const stkind how[] = { ST_RST, ST_FIN, ST_GARB, ST_CN };

	base();
	c = cl_new("a", "pa");
	cl_conn(c);
	cl_moin(c);
	cl_pushs(c, "[1] OK;one\n");
	if (ARG & 1) cl_big(c, "[1] OK;2", 'q', 5000);
	cl_sends(c, c->lines_planned, "PUSH 11\r\n");
	c->lines_planned++;
	cl_sends(c, c->lines_planned, "[1] OK;two\n");
	if (ARG & 2) W.fifo_cap = 4096;
	{
		/* the break comes before any of the remaining steps */
		int at = mc_choose_free(c->nst, "breaks before step") , k = mc_choose_free(4, "how");
		while (c->nst > at + 1) {
			c->nst--;
			free(c->st[c->nst].p);
			c->st[c->nst].p = NULL;
		}
		cl_step(c, how[k], 0);
		c->st[c->nst - 1].hard = 1;
		if (how[k] == ST_CN) { cl_step(c, ST_FIN, 0); c->st[c->nst - 1].hard = 1; }
	}
	good("b", "pb", "[1] OK;good\n");
	serve();
}
/* disk and pipe errors */
static void
sc_faults(void *arg)
{
	client *c, *d;

	base();
	if (ARG & 1) W.k_fifo_faults = 2;
	if (ARG & 2) W.k_file_faults = 1;
	if (ARG & 4) W.k_aio_faults = 1;
	srv_settle = 50;
	c = cl_new("a", "pa");
	cl_conn(c);
	cl_moin(c);
	cl_pushs(c, "[1] OK;one\n");
	if (ARG & 8) cl_big(c, "[1] OK;2", 'q', 5000);
	cl_pushs(c, "[1] OK;three\n");
	if (ARG & 16) cl_big(c, "[1] OK;4", 'r', 6000);
	cl_quit(c);
	cl_close(c);
	/* long afterwards everything works again */
	d = cl_new("b", "pb");
	cl_conn(d);
	d->st[0].at = 40;
	cl_moin(d);
	cl_pushs(d, "[9] OK;probe\n");
	cl_big(d, "[9] OK;p", 'w', 4500);
	cl_quit(d);
	cl_close(d);
	serve();
}

/* further commands arrive while a batch is written to the disk; nothing follows */
static void
sc_faults_backlog(void *arg)
{
	static const size_t sz[] = { 30, 2100, 4096, 5000 };
	client *c;
	int i, n = 1 + mc_choose_free(3, "commands meanwhile"), k = mc_choose_free(4, "their size"), down = mc_choose_free(2, "Nagios is up/starts later");
	sbuf b = { 0 };

	base();
	W.k_aio_faults = (ARG & 1) != 0;
	W.k_file_faults = (ARG & 2) != 0;
	srv_settle = 50;
	c = cl_new("a", "pa");
	cl_conn(c);
	cl_moin(c);
	if (down) {
		W.fifo_reader = 0;
		nagios_flips = nagios_max = 0;
		cl_big(c, "[0] OK;0", 'o', 5000);
		cl_step(c, ST_NOP, c->lines_planned);
		c->st[c->nst - 1].at = 15;
		c->st[c->nst - 1].arg = 2;
		c->st[c->nst - 1].hard = 1;
		cl_step(c, ST_NOP, 0);
		c->st[c->nst - 1].at = 31;
	}
	for (i = 0; i <= n; i++) { /* everything arrives at once */
		char head[20], req[30];
		size_t l;
		char *p;

		snprintf(head, sizeof(head), "[%d] OK;", i + 1);
		p = mkcmd(head, (char)('p' + i), i == 0 ? 5000 : sz[k] + (size_t)i, &l);
		sb_add(&b, req, (size_t)snprintf(req, sizeof(req), "PUSH %zu\r\n", l));
		sb_add(&b, p, l);
		free(p);
	}
	cl_send(c, c->lines_planned, b.p, b.n);
	c->lines_planned += 2 * (n + 1);
	sb_free(&b);
	cl_quit(c);
	cl_close(c);
	serve();
}

/* --------------------------------------------------- C05: queue bound */
static void
sc_queue(void *arg)
{
	/* total queued volume relative to the limit */
	static const long third[] = { 248576, 248575, 248577, 200000, 300000, 1000 };
	client *c;
	int i, k = mc_choose_free(6, "last command size"), more = mc_choose_free(3, "commands after the limit");
	int big = ARG;
	size_t sum = 0;

	base();
	SCONF.maxcmd = 400000;
	SCONF.maxq = big;
	W.fifo_reader = 0;
	c = cl_new("a", "pa");
	cl_conn(c);
	cl_moin(c);
	/* the first one is held outside of the queue */
	cl_big(c, "[0] OK;first", 'f', 20);
	for (i = 0; i < 2 * 1 + 0; i++) {
		cl_big(c, i ? "[2] OK;q" : "[1] OK;q", (char)('q' + i), 400000);
		sum += 400000;
	}
	cl_big(c, "[3] OK;k", 'k', (size_t)third[k]);
	sum += (size_t)third[k];
	for (i = 0; i < more; i++) {
		cl_big(c, i ? "[5] OK;m" : "[4] OK;m", (char)('M' + i), 100000);
		sum += 100000;
	}
	cl_step(c, ST_NOP, c->lines_planned);
	c->st[c->nst - 1].at = 12;
	c->st[c->nst - 1].arg = 2;              /* Nagios starts */
	c->st[c->nst - 1].hard = 1;
	cl_step(c, ST_NOP, c->lines_planned);
	c->st[c->nst - 1].at = 35;
	cl_pushs(c, "[9] OK;probe\n");
	cl_quit(c);
	cl_close(c);
	srv_settle = 30;
	SCONF.timeout = 0;
	if (big > 0)
		srv_may_overflow = (size_t)big * 1024 * 1024;
	serve();
}

/* the limit is exceeded several times; sizes of the commands in between vary */
static void
sc_queue_twice(void *arg)
{
	static const size_t sz[] = { 100000, 262144, 400000, 17 };
	client *c;
	int i, a = mc_choose_free(4, "size of every other command"), n = 6 + mc_choose_free(6, "commands");

	base();
	(void)arg;
	SCONF.maxcmd = 400000;
	SCONF.maxq = ARG;
	W.fifo_reader = 0;
	c = cl_new("a", "pa");
	cl_conn(c);
	cl_moin(c);
	for (i = 0; i < n; i++) {
		char head[20];

		snprintf(head, sizeof(head), "[%d] OK;q", i);
		cl_big(c, head, (char)('a' + i), i % 2 ? 400000 : sz[a]);
	}
	cl_step(c, ST_NOP, c->lines_planned);
	c->st[c->nst - 1].at = 12;
	c->st[c->nst - 1].arg = 2;
	c->st[c->nst - 1].hard = 1;
	cl_step(c, ST_NOP, c->lines_planned);
	c->st[c->nst - 1].at = 35;
	cl_pushs(c, "[9] OK;probe\n");
	cl_quit(c);
	cl_close(c);
	srv_settle = 30;
	SCONF.timeout = 0;
	srv_may_overflow = (size_t)ARG * 1024 * 1024;
	serve();
}

/* ----------------------------------- C08: isolation between connections */
static double good_done[MAXCONN];
static int watch_from;
static void
watch_good(void)
{
	int i;

	for (i = watch_from; i < NCL; i++) {
		if (CL[i].pos >= CL[i].nst || CL[i].c->local_closed)
			continue;
		/* a well-behaved client is served at once */
		if (CL[i].pos > 0 && CL[i].c->accepted_ever && sim_now() - CL[i].t_last > 1.0)
			mc_fail("client %d waits for more than a second because of others", i);
	}
}
static void
sc_isolation(void *arg)
{
	client *c;
	int k = mc_choose_free(13, "misbehaviour");

	base();
	c = cl_new("a", "pa");
	c->stalled = 1;
	switch (k) {
	case 0: /* connects, never shakes hands */
		cl_step(c, ST_NOP, 0);
		c->st[0].arg = 1;
		c->st[0].hard = 1;
		break;
	case 1: /* stops within a line */
		cl_conn(c); cl_sends(c, 0, "MOI"); break;
	case 2: /* announces a command and sends half of it */
		cl_conn(c); cl_moin(c); cl_sends(c, 1, "PUSH 16000\r\n"); cl_sends(c, 2, "[1] OK;ha"); break;
	case 3: /* never reads */
		c->c->window = 0; cl_conn(c); cl_sends(c, 0, "MOIN 1 xx\r\n"); cl_sends(c, 0, "NOOP\r\n"); cl_sends(c, 0, "NOOP\r\n"); break;
	case 4: /* garbage instead of TLS */
		cl_conn(c); cl_step(c, ST_GARB, 0); break;
	case 5: /* reset in the middle */
		cl_conn(c); cl_moin(c); cl_step(c, ST_RST, 0); break;
	case 6: /* EOF without close_notify */
		cl_conn(c); cl_sends(c, 0, "MOIN 1 xx\r\n"); cl_step(c, ST_FIN, 0); break;
	case 12: /* pipelines and goes away */
		cl_conn(c); cl_sends(c, 0, "MOIN 1 xx\r\nNOOP\r\nNOOP\r\nPUSH 11\r\n[1] OK;ha"); cl_step(c, ST_FIN, 0); c->st[c->nst - 1].hard = 1; break;
	case 7: /* an endless line */
		{
			char z[3000];

			memset(z, 'z', sizeof(z));
			cl_conn(c); cl_moin(c);
			c->no_transcript = 1;
			cl_send(c, 1, z, 1000); cl_send(c, 0, z, 1000); cl_send(c, 0, z, 3000);
		}
		break;
	case 8: /* quits but does not close */
		cl_conn(c); cl_moin(c); cl_quit(c); break;
	case 9: /* close_notify during the handshake */
		cl_step(c, ST_NOP, 0); c->st[0].arg = 1; c->st[0].hard = 1; cl_step(c, ST_CN, 0); break;
	case 10: /* wrong password */
		snprintf(c->psk, sizeof(c->psk), "wrong"); cl_conn(c); cl_step(c, ST_CN, 0); c->aborted = 1; break;
	case 11: /* closes while a response is pending */
		c->c->window = 10; cl_conn(c); cl_sends(c, 0, "MOIN 1 xx\r\n"); cl_step(c, ST_CN, 0); c->no_transcript = 1; break;
	}
	watch_from = 1;
	srv_more_step = watch_good;
	good("b", "pb", "[1] OK;good\n");
	if (ARG & 1)
		good("a", "pa", "[1] OK;good2\n");
	if (ARG & 2)
		W.k_accept_faults = 1;
	if (ARG & 4)
		W.k_write_choices = 1;
	serve();
}

/* ------------------------------------------------ C09: timeouts, limits */
static double to_last[MAXCONN];
static int
srv_has_bail(const client *c)
{
	return c->c->out.p != NULL && memmem(c->c->out.p, c->c->out.n, "BAIL ", 5) != NULL;
}
static void
watch_timeouts(void)
{
	int i;
	double lim = SCONF.timeout >= 0 ? SCONF.timeout : 60.0;

	for (i = 0; i < NCL; i++) {
		client *c = &CL[i];

		if (!c->c->accepted_ever)
			continue;
		/* released: two periods (one to time out, one to wait for the goodbye) and a bit */
		if (lim > 0 && c->c->fd >= 0 && sim_now() - c->t_last > 2 * lim + 2)
			mc_fail("client %d has been silent for %.0f s, but its connection is still there", i,
			    sim_now() - c->t_last);
		/* nothing may be cut off before the limit */
		if (c->c->local_closed && !c->aborted && !c->cn_sent && c->pos < c->nst && sim_now() - c->t_last < lim - 0.05)
			mc_fail("client %d was cut off although it had been active %.1f s ago", i, sim_now() - c->t_last);
		/* told in time: what the server sends counts as activity, too */
		if (lim > 0 && c->c->fd >= 0 && c->pos > 0 && !c->cn_sent && !c->aborted && c->c->window < 0
		    && !c->c->peer_close_notify && !srv_has_bail(c)
		    && sim_now() - (c->t_last > c->t_out ? c->t_last : c->t_out) > lim + 1 + lim / 10)
			mc_fail("client %d has been silent for %.1f s, but wasn't told about the timeout", i,
			    sim_now() - c->t_last);
	}
}
static void
sc_timeouts(void *arg)
{
	client *c;
	int k = mc_choose_free(10, "falls silent"), cn = mc_choose_free(3, "answers the goodbye");
	static const double lims[] = { 60, 5, 0.5, 120, 0 };
	int l = mc_choose_free(ARG ? 5 : 2, "timeout");
	int n;

	base();
	SCONF.timeout = l == 0 ? -1 : lims[l];
	srv_expect_timeouts = 1;
	c = cl_new("a", "pa");
	c->stalled = 1;
	switch (k) {
	case 0: cl_step(c, ST_NOP, 0); c->st[0].arg = 1; c->st[0].hard = 1; break;
	case 1: cl_conn(c); break;
	case 2: cl_conn(c); cl_sends(c, 0, "MOI"); break;
	case 3: cl_conn(c); cl_moin(c); break;
	case 4: cl_conn(c); cl_moin(c); cl_sends(c, 1, "PUSH 11\r\n"); break;
	case 5: cl_conn(c); cl_moin(c); cl_sends(c, 1, "PUSH 11\r\n"); cl_sends(c, 2, "[1] "); break;
	case 6: cl_conn(c); cl_moin(c); cl_pushs(c, "[1] OK;x\n"); break;
	case 7: cl_conn(c); cl_moin(c); cl_quit(c); break;
	case 8: cl_conn(c); cl_moin(c); cl_req(c, "NOOP\r\n"); break;
	case 9: c->c->window = 0; cl_conn(c); cl_sends(c, 0, "MOIN 1 s\r\n"); break;
	}
	n = c->nst;
#ifdef REALSSL
	if (k != 9) /* no handshake, no activity */
#endif
	if (lims[l] > 0) /* some activity within the first period */
		switch (mc_choose_free(3, "activity before")) {
		case 1: c->st[n - 1].at = lims[l] * 0.5; break;
		case 2:
			if (n > 1)
				c->st[1].at = lims[l] * 0.3;
			c->st[n - 1].at = lims[l] * 0.9;
			break;
		}
	if (cn == 2 && (k < 3 || k == 7 || lims[l] <= 0))
		mc_abandon();
	if (cn == 2) { /* comes back to life too late */
		cl_sends(c, 0, k == 5 ? "OK;late" : "NOOP\r\nPUSH 11\r\n[1] OK;zzz\nNOOP\r\n");
		c->st[c->nst - 1].at = c->st[n - 1].at + lims[l] * 1.25;
		c->st[c->nst - 1].hard = 1;
		c->no_transcript = 1;
	} else if (cn && k != 0) {
		cl_step(c, ST_CN, 0);
		c->st[c->nst - 1].await_cn = 1;
	}
	good("b", "pb", "[1] OK;good\n");
	srv_more_step = watch_timeouts;
	serve();
	(void)n;
	if (k >= 1 && k != 7 && k != 9 && SCONF.timeout != 0 && memmem(c->c->out.p ? c->c->out.p : "", c->c->out.n, "BAIL ", 5) == NULL)
		mc_fail("the silent client was not told about the timeout");
	if (cn == 2 && c->c->out.n) {
		const char *m = memmem(c->c->out.p, c->c->out.n, "BAIL ", 5);

		if (m != NULL && memmem(m, c->c->out.n - (size_t)(m - c->c->out.p), "\r\n", 2) != c->c->out.p + c->c->out.n - 2)
			mc_fail("the timed out client was served: %.*s", (int)c->c->out.n, c->c->out.p);
		for (n = 0; n < W.nfw; n++)
			if (memmem(W.fw[n].p, W.fw[n].n, "zzz", 3) != NULL || memmem(W.fw[n].p, W.fw[n].n, "late", 4) != NULL)
				mc_fail("a command of a timed out client was delivered");
	}
	if (SCONF.timeout != 0 && !c->c->local_closed)
		mc_fail("the silent client's connection was never released");
	if (SCONF.timeout == 0 && !c->cn_sent && c->c->local_closed)
		mc_fail("connection closed although timeouts are disabled");
}
/* the server doesn't get to run for a while (a busy or suspended system): data which has arrived counts */
static void
sc_suspended(void *arg)
{
	client *c;
	int j, l = mc_choose_free(3, "suspended for");

	(void)arg;
	base();
	SCONF.timeout = 10;
	c = cl_new("a", "pa");
	cl_conn(c);
	cl_moin(c);
	cl_pushs(c, "[1] OK;suspended\n");
	cl_req(c, "NOOP\r\n");
	cl_quit(c);
	cl_close(c);
	j = mc_choose_free(c->nst - 1, "delayed step");
	c->st[j].at = 5;
	c->st[j].hard = 1;
	W.k_suspend = l == 0 ? 4 : l == 1 ? 7 : 100;
	serve();
}
/* activity of any kind keeps the session open */
static void
sc_keepalive(void *arg)
{
	client *c;
	int i, kind = mc_choose_free(6, "activity");
	double lim = 10, gap;
	static const double gaps[] = { 9.0, 9.9, 5.0, 3.3, 9.7 };

	base();
	(void)arg;
	SCONF.timeout = lim;
	gap = gaps[mc_choose_free(5, "gap")];
	c = cl_new("a", "pa");
	if (kind == 4) { /* a slow handshake */
#ifdef REALSSL
		mc_abandon(); /* the peer's handshake isn't split */
#endif
		cl_step(c, ST_NOP, 0);
		c->st[0].arg = 1;
		c->st[0].hard = 1;
		for (i = 0; i < 5; i++) {
			cl_step(c, ST_PART, 0);
			c->st[c->nst - 1].at = gap * (i + 1);
			c->st[c->nst - 1].hard = 1;
		}
		cl_step(c, ST_HELLO, 0);
		c->st[c->nst - 1].at = gap * 6;
		c->st[c->nst - 1].hard = 1;
		cl_moin(c);
		cl_pushs(c, "[1] OK;slow\n");
		cl_quit(c);
		cl_close(c);
		srv_more_step = watch_timeouts;
		serve();
		return;
	}
	if (kind == 5) { /* reads its responses slowly */
		c->c->window = 20;
		W.k_recmax = 6;
		cl_conn(c);
		cl_sends(c, 0, "MOIN 1 sess\r\n");
		for (i = 0; i < 10; i++)
			cl_sends(c, 0, "PUSH 11\r\n[1] OK;%03d\n", i);
		for (i = 0; i < 6; i++) {
			cl_step(c, ST_WINDOW, 0);
			c->st[c->nst - 1].arg = 13 + i;
			c->st[c->nst - 1].at = gap * (i + 1);
			c->st[c->nst - 1].hard = 1;
		}
		cl_step(c, ST_WINDOW, 0);
		c->st[c->nst - 1].arg = -1;
		c->st[c->nst - 1].at = gap * 7;
		c->st[c->nst - 1].hard = 1;
		cl_sends(c, 0, "QUIT\r\n");
		cl_step(c, ST_CN, 0);
		c->st[c->nst - 1].await_cn = 1;
		srv_more_step = watch_timeouts;
		serve();
		return;
	}
	cl_conn(c);
	cl_moin(c);
	for (i = 0; i < 6; i++) {
		int from = c->nst;

		switch (kind) {
		case 0: cl_req(c, "NOOP\r\n"); break;
		case 1: cl_pushs(c, "[1] OK;%d\n", i); break;
		case 2: cl_req(c, "FOO\r\n"); break;
		case 3: /* a slow command: a few bytes at a time */
			if (i == 0) { cl_sends(c, c->lines_planned, "PUSH 16\r\n"); c->lines_planned++; cl_sends(c, c->lines_planned, "[1] "); }
			else if (i == 5) { cl_sends(c, 0, "\n"); c->lines_planned++; }
			else cl_sends(c, 0, i == 1 ? "OK;" : i == 2 ? "xy" : i == 3 ? "zzz" : "abc");
			break;
		}
		c->st[from].at = gap * (i + 1);
	}
	{
		int from = c->nst;
		cl_quit(c);
		c->st[from].at = gap * 7;
	}
	cl_close(c);
	srv_more_step = watch_timeouts;
	serve();
}
/* line length limits */
static void
sc_lines(void *arg)
{
	static const int len[] = { 5, 64, 120, 126, 127, 128, 129, 255, 256, 257, 512, 1000, 1020, 1022, 4200, 6000, 20000 };
	int l = len[mc_choose_free(17, "line length")], term = mc_choose_free(3, "terminator");
	int seg = mc_choose_free(4, "segments"), st = mc_choose_free(2, "state");
	static const int segs[] = { 100000, 1000, 100, 1460 };
	client *c;
	char *b;
	int n = l, i;
	size_t live;

	base();
	(void)arg;
	if (term == 2 && l < 4200)
		return;
	if (l / segs[seg] > 190)
		return;
	b = malloc((size_t)n + 3);
	memset(b, 'n', (size_t)n);
	if (term == 0) { memcpy(b + n, "\r\n", 2); n += 2; }
	if (term == 1) { memcpy(b + n, "\n", 1); n += 1; }
	c = cl_new("a", "pa");
	cl_conn(c);
	if (st) cl_moin(c);
	for (i = 0; i < n; i += segs[seg]) {
		int k = n - i < segs[seg] ? n - i : segs[seg];

		cl_send(c, i == 0 ? c->lines_planned : 0, b + i, (size_t)k);
	}
	free(b);
	c->lines_planned++;
	if (l < 1024) {
		if (!st) cl_moin(c);
		cl_pushs(c, "[1] OK;line\n");
		cl_quit(c);
		cl_close(c);
	} else {
		/* must be refused, not buffered */
		cl_step(c, ST_CN, 0);
		c->st[c->nst - 1].await_cn = 1;
		c->st[c->nst - 1].hard = 1;
		sever(c, ST_FIN);
		c->no_transcript = 1;
	}
	good("b", "pb", "[1] OK;good\n");
	serve();
	if (l >= 4200) {
		const char *o = c->c->out.p ? c->c->out.p : "";
		const char *last = strstr(o, "BAIL ");

		if (last == NULL)
			mc_fail("a request line of %d bytes was not refused", l);
		if (strncmp(o, st ? "MOIN 1\r\nBAIL " : "BAIL ", st ? 13 : 5))
			mc_fail("unexpected response to an overlong line");
		if (!c->c->local_closed)
			mc_fail("connection not closed after an overlong line");
	}
	(void)live;
}
/* command size limit */
static void
sc_cmdsize(void *arg)
{
	static const long lim[] = { -1, 1, 11, 100, 16384, 65536, 0 };
	long m = lim[mc_choose_free(7, "max_command_size")], eff = m < 0 ? 16384 : m;
	long d = mc_choose_free(3, "size relative to the limit") - 1, n;
	client *c;

	base();
	(void)arg;
	SCONF.maxcmd = m;
	n = eff == 0 ? 70000 : eff + d;
	c = cl_new("a", "pa");
	cl_conn(c);
	cl_moin(c);
	if (n > 0 && (eff == 0 || n <= eff)) {
		if (n < 9) {
			cl_req(c, "PUSH %ld\r\n", n);
			cl_send(c, c->lines_planned, "\n\n\n\n\n\n\n\n\n", (size_t)n);
			c->lines_planned++;
		} else
			cl_big(c, "[1] OK;", 's', (size_t)n);
	} else
		cl_req(c, "PUSH %ld\r\n", n);
	cl_req(c, "NOOP\r\n");
	cl_quit(c);
	cl_close(c);
	serve();
}

/* ------------------------------------ C10: robustness, resource leaks */
static struct { long bytes; int blocks, fds, ssl; int n; } lk[MAXCONN];
static int lk_n, lk_warm;
static void
leak_step(void)
{
	int i, closed = 0, open = 0, q = 0;

	for (i = 0; i < NCL; i++) {
		if (CL[i].c->local_closed) closed++;
		else if (CL[i].c->accepted_ever || CL[i].c->pending_accept) open++;
	}
	for (i = 0; i < W.naio; i++)
		if (W.aio[i].active) q = 1;
	if (open || q || closed <= lk_n)
		return;
	/* everything belonging to the first `closed' clients should be gone;
	 * look again a little later, when pending output has been handled */
	for (i = 0; i < NCL; i++)
		if (CL[i].c->local_closed && sim_now() - CL[i].c->t_closed < 15)
			return;
	lk_n = closed;
	lk[closed].bytes = trk_bytes;
	lk[closed].blocks = (int)trk_blocks;
	lk[closed].fds = W.nopen;
	lk[closed].ssl = fssl_live;
	mc_note("t=%.1f after %d connections: %ld bytes in %ld blocks, %d descriptors, %d SSL objects", sim_now(),
	    closed, trk_bytes, trk_blocks, W.nopen, fssl_live);
}
static void
leak_verdict(void)
{
	int a = 0, b = 0, c = 0, i;

	for (i = 1; i < MAXCONN; i++)
		if (lk[i].blocks) { a = b; b = c; c = i; }
	if (a == 0)
		return; /* fewer than three readings */
	if (lk[c].blocks > lk[b].blocks && lk[b].blocks > lk[a].blocks)
		mc_fail("memory is leaked with every connection: %d, %d, %d blocks", lk[a].blocks, lk[b].blocks, lk[c].blocks);
	if (lk[c].bytes > lk[b].bytes + 64 && lk[b].bytes > lk[a].bytes + 64)
		mc_fail("memory is leaked with every connection: %ld, %ld, %ld bytes", lk[a].bytes, lk[b].bytes, lk[c].bytes);
	if (lk[c].fds > lk[b].fds && lk[b].fds > lk[a].fds)
		mc_fail("descriptors are leaked with every connection: %d, %d, %d", lk[a].fds, lk[b].fds, lk[c].fds);
	if (lk[c].ssl > lk[b].ssl && lk[b].ssl > lk[a].ssl)
		mc_fail("SSL objects are leaked with every connection: %d, %d, %d", lk[a].ssl, lk[b].ssl, lk[c].ssl);
}
static void
misbehave(client *c, int k, int brk, int how)
{
	static const stkind hows[] = { ST_RST, ST_FIN, ST_GARB, ST_CN };
	int from;

	c->no_transcript = 1;
	switch (k) {
	case 0: cl_conn(c); cl_moin(c); cl_pushs(c, "[1] OK;x\n"); cl_pushs(c, "[1] NO;x\n"); cl_quit(c); break;
	case 1: cl_conn(c); cl_sends(c, 0, "PING 1\r\n"); cl_sends(c, 0, "PING 1\r\n"); break;
	case 2: cl_conn(c); cl_moin(c); cl_sends(c, 1, "PUSH 5000\r\n"); { char z[6000]; memset(z, 'z', 6000); memcpy(z, "[1] OK;", 7); z[4999] = '\n'; cl_send(c, 2, z, 2000); cl_send(c, 0, z + 2000, 3000); } cl_sends(c, 3, "NOOP\r\n"); break;
	case 3: cl_step(c, ST_NOP, 0); c->st[0].arg = 1; c->st[0].hard = 1; cl_step(c, ST_PART, 0); break;
	case 4: snprintf(c->psk, sizeof(c->psk), "bad"); cl_conn(c); break;
	case 5: snprintf(c->id, sizeof(c->id), "stranger"); cl_conn(c); break;
	case 6: cl_conn(c); cl_moin(c); { char z[3000]; memset(z, 'z', 3000); cl_send(c, 1, z, 3000); } cl_sends(c, 0, "xx\r\n"); break;
	case 7: cl_conn(c); cl_moin(c); cl_sends(c, 1, "PUSH 10\r\n"); cl_sends(c, 2, "12345"); break;
	case 8: c->c->window = 20; cl_conn(c); cl_moin(c); cl_sends(c, 0, "NOOP\r\nNOOP\r\nQUIT\r\n"); break;
	case 9: cl_conn(c); cl_moin(c); cl_sends(c, 1, "BAIL out\r\n"); cl_sends(c, 0, "NOOP\r\n"); break;
	case 10: cl_conn(c); cl_moin(c); cl_sends(c, 1, "FOO\r\n"); cl_sends(c, 2, "PUSH 99999\r\n"); cl_sends(c, 3, "QUIT\r\n"); break;
	}
	from = brk > c->nst ? c->nst : brk;
	if (from < 1) from = 1;
	while (c->nst > from) {
		c->nst--;
		free(c->st[c->nst].p);
		c->st[c->nst].p = NULL;
	}
	if (how < 4) {
		cl_step(c, hows[how], 0);
		c->st[c->nst - 1].hard = 1;
		if (how == 3) sever(c, ST_FIN);
	} else
		c->stalled = 1; /* just falls silent: the timeout must clean up */
}
static void
sc_misbehave(void *arg)
{
	int k = mc_choose_free(11, "behaviour"), brk = 1 + mc_choose_free(8, "breaks after"), how = mc_choose_free(5, "how it ends");
	client *c, *g;

	base();
	SCONF.timeout = 15;
	c = cl_new("a", "pa");
	misbehave(c, k, brk, how);
	srv_expect_timeouts = 1;
	if (ARG & 8) SCONF.loglevel = 5;
	g = good("b", "pb", "[1] OK;good\n");
	if (ARG & 1) W.k_write_choices = 1;
	if (ARG & 2) W.k_wantread = 1;
	if (ARG & 4) W.k_accept_faults = 1;
	serve();
	if (c->c->accepted_ever && !c->c->local_closed)
		mc_fail("the misbehaving client's connection was never released");
	(void)g;
}
/* whatever clients send, at any log level */
static void
sc_verbose(void *arg)
{
	static const char *const evil[] = { "%s%s%s%s%n%n%n", "%n", "%99999999d%n", "%1$n%2$n%3$s", "%%n%", "%*.*s", "%m%s", "\x1b[31m\x07", "plain" };
	static const int pad[] = { 0, 60, 240, 900 };
	const char *e = evil[mc_choose_free(9, "text")];
	int where = mc_choose_free(7, "where"), p = pad[mc_choose_free(4, "padding")], n;
	static char id[1100], t[2200];
	client *c;

	(void)arg;
	base();
	SCONF.loglevel = 1 + mc_choose_free(5, "log level");
	if (where == 0 && p > 60)
		mc_abandon();
	n = snprintf(t, sizeof(t), "%s%*s", e, p, p ? "x" : "");
	for (; n > (int)strlen(e); n--)
		if (t[n - 1] == ' ')
			t[n - 1] = (n & 1) ? '%' : 's';
	snprintf(id, sizeof(id), "%s", where == 0 ? t : "a");
	if (where == 0) {
		if (strchr(id, '\x1b'))
			mc_abandon();
		SCONF.u[4] = (user){ .id = id, .pw = "pid", .cmds = { "OK.*", NULL } };
	}
	c = cl_new(id, where == 0 ? "pid" : "pa");
	c->no_transcript = 1;
	cl_conn(c);
	if (where == 1)
		cl_sends(c, 0, "MOIN 1 %s\r\n", t);
	else
		cl_moin(c);
	switch (where) {
	case 2: cl_sends(c, 1, "PUSH %d\r\n", (int)strlen(t) + 8); cl_sends(c, 2, "[1] OK;%s\n", t); break;
	case 3: cl_sends(c, 1, "PUSH %d\r\n", (int)strlen(t) + 8); cl_sends(c, 2, "[1] NO;%s\n", t); break;
	case 4: cl_sends(c, 1, "%s\r\n", t); break;
	case 5: cl_sends(c, 1, "BAIL %s\r\n", t); break;
	case 6: cl_sends(c, 1, "PUSH %s\r\n", t); break;
	default: cl_sends(c, 1, "PUSH 11\r\n"); cl_sends(c, 2, "[1] OK;abc\n"); break;
	}
	cl_sends(c, 2, "NOOP\r\n");
	cl_step(c, ST_CN, 0);
	c->st[c->nst - 1].hard = 1;
	c->aborted = 1;
	good("b", "pb", "[1] OK;good\n");
	serve();
	check_log_id(c);
	check_log_id(c + 1);
}
static void
sc_leaks(void *arg)
{
	int k = mc_choose_free(11, "behaviour"), brk = 1 + mc_choose_free(8, "breaks after"), how = mc_choose_free(5, "how it ends");
	int i;

	base();
	(void)arg;
	SCONF.timeout = 15;
	memset(lk, 0, sizeof(lk));
	lk_n = 0;
	srv_expect_timeouts = 1;
	for (i = 0; i < 4; i++) {
		client *c = cl_new("a", "pa");

		misbehave(c, k, brk, how);
		c->st[0].at = 120.0 * i + 1;
		c->st[0].hard = 1;
	}
	srv_more_step = leak_step;
	srv_on_quiescent = leak_verdict;
	serve();
}
/* the same for disk and pipe errors */
static void
sc_leaks_faults(void *arg)
{
	int kind = mc_choose_free(6, "fault"), i;

	base();
	(void)arg;
	memset(lk, 0, sizeof(lk));
	lk_n = 0;
	sim_auto_fault = kind;
	for (i = 0; i < 4; i++) {
		client *c = cl_new("a", "pa");

		cl_conn(c);
		cl_moin(c);
		cl_big(c, "[1] OK;l", (char)('a' + i), 5000 + (size_t)i);
		cl_pushs(c, "[1] OK;s%d\n", i);
		cl_quit(c);
		cl_close(c);
		c->st[0].at = 60.0 * i + 1;
	}
	srv_more_step = leak_step;
	srv_on_quiescent = leak_verdict;
	serve();
}

/* ------------------------------------------------ C13: stop and restart */
static int stop_sent, stop_sig;
enum { E_STOP = 300 };
static int
stop_events(envevent *ev, int max)
{
	if (stop_sent || max < 1)
		return 0;
	ev[0].kind = E_STOP;
	ev[0].a = stop_sig;
	ev[0].label = "signal";
	return 1;
}
static int
stop_apply(const envevent *e)
{
	if (e->kind != E_STOP)
		return 0;
	stop_sent = 1;
	W.terminating = 1;
	mc_note("t=%.1f signal %d", sim_now(), stop_sig);
	sim_raise(stop_sig);
	return 1;
}
static void
stop_exec(void)
{
	int i;

	if (W.listen_fd >= 0)
		mc_fail("restarting with the listening socket still open");
	for (i = 0; i < SIM_NFD; i++)
		if (W.fds[i].kind == K_FIFO)
			mc_fail("restarting with the command file still open");
}
static void
stop_final(void)
{
	if (!W.terminating)
		mc_fail("the server terminated on its own: %s", W.log.n ? W.log.p : "");
	if (stop_sig == SIGHUP && stop_sent) {
		if (!W.exec_called)
			mc_fail("no restart after SIGHUP (exit code %d): %s", W.exit_code, W.log.n ? W.log.p : "");
		if (!W.exec_ok && (W.exited != 1 || W.exit_code == 0))
			mc_fail("failed restart not reported (exit code %d)", W.exit_code);
		if (strcmp(W.exec_path, "nsca-ng"))
			mc_fail("restart executes %s", W.exec_path);
	} else {
		if (W.exec_called)
			mc_fail("restart without SIGHUP");
		if (W.exited != 1 || W.exit_code != 0)
			mc_fail("unclean termination (code %d): %s", W.exit_code, W.log.n ? W.log.p : "");
	}
	if (SCONF.pidfile && sim_find_file("/sim/nsca.pid"))
		mc_fail("the PID file was left behind");
}
static void
sc_stop(void *arg)
{
	static const int sigs[] = { SIGTERM, SIGINT, SIGHUP, SIGHUP };
	client *c;
	int k = mc_choose_free(4, "signal");

	base();
	stop_sent = 0;
	stop_sig = sigs[k];
	SCONF.pidfile = 1;
	W.exec_ok = k == 3;
	W.k_stop_events = 1;
	srv_more_events = stop_events;
	srv_more_apply = stop_apply;
	srv_final = stop_final;
	sim_on_exec = stop_exec;
	c = cl_new("a", "pa");
	cl_conn(c);
	cl_moin(c);
	cl_pushs(c, "[1] OK;one\n");
	if (ARG & 1) cl_big(c, "[1] OK;2", 'q', 5000);
	if (ARG & 4) W.fifo_reader = 0;
	if (ARG & 2) { cl_pushs(c, "[1] OK;three\n"); cl_big(c, "[1] OK;4", 'r', 5000); }
	cl_quit(c);
	cl_close(c);
	if (ARG & 8)
		good("b", "pb", "[1] OK;other\n");
	serve();
}

/* ------------------------------------------------- C11: identities */
static int
fifo_has(const char *s)
{
	int i;

	for (i = 0; i < W.nfw; i++)
		if (memmem(W.fw[i].p, W.fw[i].n, s, strlen(s)))
			return 1;
	return 0;
}
/* wrong credentials: whatever the client sends has no effect */
static void
intruder(client *c)
{
	cl_sends(c, 0, "MOIN 1 sess\r\n");
	c->aborted = 1;
	c->no_transcript = 1;
	cl_sends(c, 0, "PUSH 15\r\n");
	cl_sends(c, 0, "[1] QA;intruder\n");
}
static void
no_intrusion(client *c, const char *what)
{
	if (c->c->out.n || fifo_has("intruder"))
		mc_fail("client with identity '%.40s' was served, although %s", c->id, what);
	if (c->c->accepted_ever && !c->c->local_closed)
		mc_fail("the connection of an unauthenticated client wasn't released");
}
/* a TLS 1.3 client may offer several identities, session tickets among them */
static void
sc_psk_list(void *arg)
{
	static const psk_offer e[] = { { 0 }, { 1, "a", "pa" }, { 1, "b", "pb" }, { 1, "a", "wrong" }, { 1, "nobody", "pa" },
		{ 1, "locked", "" }, { 2, "\xfe\x01ticket\x7f", NULL, 0 } };
	int star = mc_choose_free(3, "fallback section"), i, ok = 0, n = 0;
	client *c, *d;

	(void)arg;
	base();
	SCONF.u[2] = (user){ .id = "locked", .pw = "", .cmds = { "QX.*", "QA.*", NULL } };
	if (star)
		SCONF.u[3] = (user){ .id = "*", .pw = star == 1 ? "pstar" : "", .cmds = { "QS.*", "QA.*", NULL } };
	c = good("b", "pb", "[1] QB;1\n");
	d = cl_new("?", "");
	for (i = 0; i < 3; i++) {
		int k = mc_choose_free(7, "offered identity");

		if (k == 0)
			break;
		fssl_offer[d->c->index][n++] = e[k];
		if (ok == 0) {
			if (k == 1 || k == 2) {
				ok = 1;
				snprintf(d->id, sizeof(d->id), "%s", e[k].id);
			} else if (k == 3 || (star == 1 && (k == 4 || k == 6)))
				ok = -1;
			else if (k == 6)
				ok = -2; /* resumption: no identity */
		}
	}
	if (n == 0)
		fssl_offer[d->c->index][0] = e[4];
	cl_conn(d);
	d->st[0].at = 5;
	if (ok == 1) {
		cl_moin(d);
		cl_pushs(d, "[1] QA;2\n");
		cl_pushs(d, "[1] QB;2\n");
		cl_pushs(d, "[1] QX;2\n");
		cl_pushs(d, "[1] QS;2\n");
		cl_quit(d);
		cl_close(d);
	} else
		intruder(d);
	serve();
	if (ok != 1)
		no_intrusion(d, "it doesn't know a password");
}
#ifdef REALSSL
/* ---------------------------------- C11: authentication on the real OpenSSL */
#include "rssl.h"
static void
ver(int conn, int v)
{
	RC[conn].maxver = v == 1 ? TLS1_2_VERSION : 0;
	RC[conn].minver = v == 2 ? TLS1_3_VERSION : 0;
}
static const char *
rep(const char *s, int n)
{
	static char b[4][700];
	static int i;
	char *p = b[i++ & 3];

	*p = '\0';
	while (n-- > 0)
		strcat(p, s);
	return p;
}
static const char *const t_ids[] = { "a", "b", "*", "locked", "long", "A", "a ", " a", "aa", "a\xc3\xa4", "unknown", "a\n",
	"a;b", "", "%s%s%n", "b\t", "**" };
static void
sc_tls_auth(void *arg)
{
	int ni = (int)(sizeof(t_ids) / sizeof(*t_ids));
	int i = mc_choose_free(ni + 3, "identity"), p = mc_choose_free(13, "password"), v = mc_choose_free(3, "TLS version");
	int star = mc_choose_free(3, "fallback section"), k, q, hlen;
	const char *id, *pw;
	client *c;
	user *u = NULL;
	static const char *const cmds[] = { "[1] QA;1\n", "[1] QB;1\n", "[1] QL;1\n", "[1] QX;1\n", "[1] QS;1\n" };

	(void)arg;
	srv_reset();
	SCONF.u[0] = (user){ .id = "a", .pw = "pa", .cmds = { "QA.*", NULL } };
	SCONF.u[1] = (user){ .id = "b", .pw = "pb", .cmds = { "QB.*", NULL } };
	SCONF.u[2] = (user){ .id = "long", .pw = rep("0123456789abcdef", 4), .cmds = { "QL.*", NULL } };
	SCONF.u[3] = (user){ .id = "locked", .pw = "", .cmds = { "QX.*", NULL } };
	if (star)
		SCONF.u[4] = (user){ .id = "*", .pw = star == 1 ? "pstar" : "", .cmds = { "QS.*", NULL } };
	id = i < ni ? t_ids[i] : rep("i", i == ni ? 60 : i == ni + 1 ? 128 : 250);
	switch (p) {
	case 0: pw = "pa"; break;
	case 1: pw = "pb"; break;
	case 2: pw = "pstar"; break;
	case 3: pw = SCONF.u[2].pw; break;
	case 4: pw = "p"; break;
	case 5: pw = "paa"; break;
	case 6: pw = "pA"; break;
	case 7: pw = "pa "; break;
	case 8: pw = rep("0123456789abcdef", 5); break;
	case 9: pw = rep("0123456789abcdef", 3); break;
	case 10: pw = "pbpa"; break;
	case 11: pw = "\"pa\""; break;
	default: pw = ""; break;
	}
	for (q = 0; q < 6 && SCONF.u[q].id; q++)
		if (!strcmp(SCONF.u[q].id, id))
			u = &SCONF.u[q];
	if (u == NULL && star)
		u = &SCONF.u[4];
	c = cl_new(id, pw);
	ver(c->c->index, v);
	RC[c->c->index].ciphers = "PSK:DHE-PSK-AES128-CBC-SHA:@SECLEVEL=0";
	cl_conn(c);
	if (u == NULL || strcmp(u->pw, pw) || !*pw) {
		intruder(c);
		serve();
		no_intrusion(c, u == NULL ? "there's no such section" : "its password is wrong");
		if (c->c->handshaken)
			mc_fail("a TLS session was established with identity '%.40s' and password '%.40s'", id, pw);
		return;
	}
	cl_moin(c);
	for (k = 0; k < 5; k++)
		cl_pushs(c, "%s", cmds[k]);
	cl_quit(c);
	cl_close(c);
	hlen = (int)strlen(id);
	if (hlen == 0 || hlen > 100)
		c->aborted = 1; /* OpenSSL doesn't support such identities everywhere */
	serve();
	if (!c->c->handshaken && hlen > 0 && hlen <= 100)
		mc_fail("client with identity '%s' and the correct password was refused: %s", id, RP[c->c->index].err);
}

/* cipher settings of the server, capabilities of the client, key exchange groups */
static void
sc_tls_modes(void *arg)
{
	static const char *const sciph[] = { NULL, "PSK-AES128-CBC-SHA", "ECDHE-PSK-AES256-CBC-SHA:PSK-NULL-SHA256:@SECLEVEL=0",
		"ALL:@SECLEVEL=0", "aNULL:PSK:@SECLEVEL=0", "ALL:COMPLEMENTOFALL:@SECLEVEL=0", "HIGH:!aNULL" };
	static const char *const cciph[] = { "PSK:@SECLEVEL=0", "aNULL:@SECLEVEL=0", "ALL:COMPLEMENTOFALL:@SECLEVEL=0",
		"aNULL:eNULL:!PSK:@SECLEVEL=0", "ECDHE-PSK-AES256-CBC-SHA", "DHE-PSK-AES256-GCM-SHA384:RSA-PSK-AES128-CBC-SHA" };
	static const char *const suites[] = { NULL, "TLS_AES_256_GCM_SHA384", "TLS_CHACHA20_POLY1305_SHA256:TLS_AES_256_GCM_SHA384" };
	static const char *const groups[][2] = { { NULL, NULL }, { "P-256", "X25519:P-256" }, { "P-384", "X448:X25519:P-384" } };
	int s = mc_choose_free(7, "server ciphers"), k = mc_choose_free(6, "client ciphers"), v = mc_choose_free(3, "TLS version");
	int u = mc_choose_free(3, "client suites"), g = mc_choose_free(3, "groups"), who = mc_choose_free(4, "credentials: right/wrong/none/unknown identity");
	char extra[200];
	client *c, *d;

	(void)arg;
	base();
	srv_may_refuse = 1; /* no common cipher */
	if (sciph[s]) {
		snprintf(extra, sizeof(extra), "tls_ciphers = \"%s\"\n", sciph[s]);
		SCONF.extra = extra;
	}
	rssl_groups = groups[g][0];
	c = cl_new(who == 3 ? "nobody" : "a", who == 1 ? "pb" : "pa");
	RC[c->c->index].ciphers = cciph[k];
	RC[c->c->index].suites = suites[u];
	RC[c->c->index].groups = groups[g][1];
	RC[c->c->index].no_psk = who == 2;
	ver(c->c->index, v);
	cl_conn(c);
	if (who) {
		intruder(c);
		serve();
		no_intrusion(c, "it doesn't have the password");
		return;
	}
	cl_moin(c);
	cl_pushs(c, "[1] QA;1\n");
	cl_pushs(c, "[1] QB;1\n");
	cl_quit(c);
	cl_close(c);
	/* and another one */
	d = cl_new("b", "pb");
	ver(d->c->index, v);
	RC[d->c->index].ciphers = cciph[k];
	RC[d->c->index].suites = suites[u];
	RC[d->c->index].groups = groups[g][1];
	cl_conn(d);
	cl_moin(d);
	cl_pushs(d, "[1] QA;2\n");
	cl_pushs(d, "[1] QB;2\n");
	cl_quit(d);
	cl_close(d);
	/* there need not be a common cipher */
	serve();
	if (RP[c->c->index].done && !RP[c->c->index].reused && !c->c->out.n && v != 1)
		mc_fail("a client with the correct password was refused");
	if ((v != 1 && u != 1) && !c->c->out.n)
		mc_fail("a client with the correct password was refused: %s", RP[c->c->index].err);
	if (v == 1 && k == 0 && s < 2 && !c->c->out.n)
		mc_fail("a client with the correct password and a matching cipher was refused: %s", RP[c->c->index].err);
}

/* a later connection resumes the TLS session of an earlier one */
static void
sc_tls_resume(void *arg)
{
	int v = mc_choose_free(3, "TLS version"), who = mc_choose_free(5, "credentials: none/same/other/wrong/unknown");
	int star = mc_choose_free(2, "fallback section"), close1 = mc_choose_free(3, "first session: closed/open/broken");
	int v2 = mc_choose_free(3, "second TLS version");
	static const char *const id[] = { "a", "a", "b", "a", "zz" }, *const pw[] = { "pa", "pa", "pb", "pb", "pa" };
	client *c, *d;

	(void)arg;
	base();
	if (star)
		SCONF.u[2] = (user){ .id = "*", .pw = "pstar", .cmds = { "QS.*", NULL } };
	c = cl_new("a", "pa");
	ver(c->c->index, v);
	cl_conn(c);
	cl_moin(c);
	cl_pushs(c, "[1] QA;1\n");
	if (close1 == 0) {
		cl_quit(c);
		cl_close(c);
	} else if (close1 == 2)
		cl_step(c, ST_RST, c->lines_planned);
	d = cl_new(id[who], pw[who]);
	RC[d->c->index].resume = 1;
	RC[d->c->index].no_psk = who == 0;
	ver(d->c->index, v2);
	cl_conn(d);
	d->st[0].at = 5;
	intruder(d);
	cl_sends(d, 0, "PUSH 12\r\n");
	cl_sends(d, 0, "[1] QB;rights\n" + 0);
	serve();
	if (fifo_has("intruder") && who != 1)
		mc_fail("a client got the rights of an earlier session it resumed");
	if (fifo_has("rights") && who != 2)
		mc_fail("a client got rights of somebody else");
	if (RP[d->c->index].reused)
		mc_sample("the session was resumed; response: %.20s", d->c->out.n ? d->c->out.p : "(none)");
	if (close1 == 1 && c->c->local_closed && sim_now() < 1050)
		mc_fail("the earlier session was closed");
}
/* handshake flights arrive in pieces, at any time; writes block anywhere */
static void
sc_tls_cut(void *arg)
{
	int v = mc_choose_free(2, "TLS version");
	client *c, *d;

	base();
	c = cl_new("a", "pa");
	ver(c->c->index, v ? 1 : 0);
	cl_conn(c);
	cl_moin(c);
	cl_pushs(c, "[1] QA;first\n");
	cl_pushs(c, "[1] QB;forbidden\n");
	cl_quit(c);
	cl_close(c);
	if (ARG & 2) {
		d = cl_new("b", "wrong");
		ver(d->c->index, v ? 1 : 0);
		cl_conn(d);
		intruder(d);
	}
	rssl_cut = 1;
	if (ARG & 1)
		W.k_write_choices = 1;
	serve();
	if (ARG & 2)
		no_intrusion(d, "its password is wrong");
}
#endif

#ifdef REALSSL
#define QR -1                   /* the model covers this in the quick tier */
#else
#define QR 0
#endif
static mc_scenario SCN[] = {
	/* name, properties, function, argument, quick deviations, thorough deviations */
	{ "basic", "C03 C06", sc_basic, A(0), 3, 4 },
	{ "basic-block", "C07 C10", sc_basic, A(1), 4, 6 },
	{ "basic-fifo", "C12", sc_basic, A(2), 3, 5 },
	{ "proto-seq", "C06 C10", sc_proto, A(4), 0, 0 },
	{ "proto-session", "C06", sc_proto_in, A(3), 0, 0 },
	{ "proto-args", "C06 C01", sc_proto_args, A(0), 1, 2 },
	{ "moin-args", "C06", sc_moin_args, A(0), 1, 2 },
	{ "cuts-1", "C07", sc_cuts, A(0x01), 1, 2 },
	{ "cuts-2", "C07", sc_cuts, A(0x12), 0, 1 },
	{ "cuts-2b", "C07", sc_cuts, A(0x02), 0, 1 },
	{ "cuts-long", "C07", sc_cuts, A(0x22), QR, 0 },
	{ "chunks-0", "C07", sc_chunks, A(0), 1, 2 },
	{ "chunks-1", "C07", sc_chunks, A(1), 1, 2 },
	{ "chunks-2", "C07", sc_chunks, A(2), 0, 1 },
	{ "records", "C07", sc_records, A(0), 0, 1 },
	{ "records-cut", "C07", sc_records, A(1), QR, 0 },
	{ "block", "C07 C06", sc_block, A(0), 3, 4 },
	{ "block-pipe", "C07", sc_block, A(1), 3, 4 },
	{ "block-wantread", "C07", sc_block, A(2), 3, 4 },
	{ "block-pipe-wantread", "C07", sc_block, A(3), 2, 4 },
	{ "block-ku", "C07", sc_block, A(10), 2, 3 },
	{ "block-records", "C07 C06", sc_block, A(5), 2, 3 },
	{ "noread", "C07 C08 C10", sc_noread, A(0), 1, 2 },
	{ "noread-quit", "C07 C08 C10", sc_noread, A(1), 1, 2 },
	{ "noread-bits", "C07 C06", sc_noread, A(2), 1, 2 },
	{ "noread-bits-quit", "C07 C06", sc_noread, A(3), 1, 2 },
	{ "authz", "C01", sc_authz, A(0), 0, 0 },
	{ "authz-all", "C01", sc_authz, A(1), 0, 1 },
	{ "authz-far", "C01 C02", sc_authz_far, A(0), 0, 0 },
	{ "authz-ids", "C01 C11", sc_authz_ids, A(0), 0, 1 },
	{ "authz-seq", "C01 C11", sc_authz_seq, A(0), 0, 0 },
	{ "authz-prefix", "C11 C01", sc_authz_prefix, A(0), 0, 0 },
	{ "authz-many", "C02 C01 C11", sc_authz_many, A(0), 0, 0 },
	{ "authz-two", "C01", sc_authz_two, A(0), 3, 4 },
	{ "authz-two-moin", "C01", sc_authz_two, A(1), 2, 4 },
	{ "authz-two-rst", "C01", sc_authz_two, A(2), 2, 4 },
	{ "authz-reuse", "C01", sc_authz_reuse, A(0), 2, 3 },
	{ "patterns", "C02 C01", sc_patterns, A(0), 0, 0 },
	{ "services", "C02 C01", sc_services, A(0), 0, 0 },
	{ "fields", "C02 C01", sc_fields, A(0), 0, 0 },
	{ "fallback", "C02", sc_fallback, A(0), 0, 0 },
	{ "clients-2", "C03 C04 C08", sc_clients, A(2), 3, 4 },
	{ "clients-2-big", "C03 C04", sc_clients, A(0x12), 2, 4 },
	{ "clients-3", "C03 C08", sc_clients, A(3), 2, 3 },
	{ "dupes", "C03", sc_dupes, A(0), 2, 4 },
	{ "nagios-up-down", "C03 C12", sc_nagios, A(0), 3, 4 },
	{ "nagios-late", "C03 C12", sc_nagios, A(2), 3, 4 },
	{ "nagios-nofifo", "C03 C12", sc_nagios, A(4), 3, 4 },
	{ "nagios-file", "C03 C12", sc_nagios, A(32), 3, 4 },
	{ "nagios-big", "C03 C04 C12", sc_nagios, A(1 + 8), 2, 4 },
	{ "nagios-two", "C03 C12", sc_nagios, A(1 + 16), 2, 3 },
	{ "nagios-two-big", "C03 C04", sc_nagios, A(1 + 2 + 8 + 16), 2, 3 },
	{ "backlog-2", "C03 C04", sc_backlog, A(2), 0, 1 },
	{ "backlog-3", "C03 C04", sc_backlog, A(3), 0, 1 },
	{ "backlog-2-more", "C03 C04", sc_backlog, A(0x12), 0, 1 },
	{ "sizes-2", "C03 C04", sc_sizes, A(2), 1, 2 },
	{ "sizes-3", "C03 C04", sc_sizes, A(3), 0, 1 },
	{ "sizes-full4", "C03 C04", sc_sizes, A(0x42), 1, 2 },
	{ "sizes-full8", "C03 C04", sc_sizes, A(0x82), 1, 2 },
	{ "sizes-two", "C03 C04", sc_sizes, A(0x22), 1, 2 },
	{ "sizes-nagios", "C03 C04", sc_sizes, A(0x102), 1, 2 },
	{ "large", "C03 C04", sc_large, A(0), 0, 1 },
	{ "large-backlog", "C03 C04 C12", sc_large, A(1), 0, 1 },
	{ "full", "C03 C04", sc_full, A(0), 3, 4 },
	{ "full-1", "C03 C04", sc_full, A(1), 3, 4 },
	{ "full-2", "C03 C04", sc_full, A(2), 3, 4 },
	{ "full-two", "C03 C04", sc_full, A(7), 2, 3 },
	{ "vanish", "C03 C10", sc_vanish, A(0), 1, 2 },
	{ "vanish-big", "C03 C10", sc_vanish, A(3), 1, 2 },
	{ "faults-fifo", "C12", sc_faults, A(1), 2, 3 },
	{ "faults-disk", "C12", sc_faults, A(2 + 8), 2, 3 },
	{ "faults-aio", "C12", sc_faults, A(4 + 8), 2, 3 },
	{ "faults-all", "C12", sc_faults, A(7 + 8 + 16), 2, 3 },
	{ "faults-backlog", "C12 C03", sc_faults_backlog, A(1), 3, 4 },
	{ "faults-backlog-disk", "C12", sc_faults_backlog, A(2), 2, 3 },
	{ "queue-1", "C05", sc_queue, A(1), 0, 0 },
	{ "queue-2", "C05", sc_queue, A(2), 0, 0 },
	{ "queue-twice", "C05", sc_queue_twice, A(1), 0, 0 },
	{ "queue-4096", "C05", sc_queue_twice, A(4096), 0, 0 },
	{ "queue-4097", "C05", sc_queue_twice, A(4097), 0, 0 },
	{ "queue-unlimited", "C05", sc_queue, A(0), 0, 0 },
	{ "isolation", "C08", sc_isolation, A(0), 2, 3 },
	{ "isolation-3", "C08", sc_isolation, A(1), 1, 2 },
	{ "isolation-accept", "C08 C10", sc_isolation, A(2), 1, 2 },
	{ "isolation-block", "C08", sc_isolation, A(4), 1, 2 },
	{ "timeouts", "C09", sc_timeouts, A(1), 0, 1 },
	{ "timeouts-sched", "C09", sc_timeouts, A(0), 2, 3 },
	{ "suspended", "C09", sc_suspended, A(0), 1, 2 },
	{ "keepalive", "C09", sc_keepalive, A(0), 1, 2 },
	{ "lines", "C09 C06", sc_lines, A(0), 0, 1 },
	{ "cmdsize", "C09 C06", sc_cmdsize, A(0), 1, 2 },
	{ "misbehave", "C10 C08", sc_misbehave, A(0), 1, 2 },
	{ "misbehave-verbose", "C10", sc_misbehave, A(8), 0, 1 },
	{ "verbose", "C10 C18 C08", sc_verbose, A(0), 0, 1 },
	{ "misbehave-block", "C10", sc_misbehave, A(3), 1, 2 },
	{ "misbehave-accept", "C10", sc_misbehave, A(4), 1, 2 },
	{ "leaks", "C10", sc_leaks, A(0), 0, 0 },
	{ "leaks-faults", "C10 C12", sc_leaks_faults, A(0), 0, 0 },
	{ "stop", "C13", sc_stop, A(0), 1, 2 },
	{ "stop-spool", "C13", sc_stop, A(1), 2, 3 },
	{ "stop-spool2", "C13", sc_stop, A(3), 2, 3 },
	{ "stop-queue", "C13", sc_stop, A(5), 1, 2 },
	{ "stop-two", "C13", sc_stop, A(8), 1, 2 },
#ifndef REALSSL
	{ "psk-list", "C11", sc_psk_list, A(0), 0, 0 },
#endif
#ifdef REALSSL
	{ "tls-auth", "C11", sc_tls_auth, A(0), 0, 0 },
	{ "tls-modes", "C11", sc_tls_modes, A(0), 0, 0 },
	{ "tls-resume", "C11", sc_tls_resume, A(0), 0, 1 },
	{ "tls-cut", "C11 C07", sc_tls_cut, A(0), 2, 3 },
	{ "tls-cut-block", "C11 C07", sc_tls_cut, A(1), 2, 3 },
	{ "tls-cut-wrong", "C11 C08", sc_tls_cut, A(2), 1, 2 },
#endif
};
int main(int argc, char **argv) { return mc_main(argc, argv, SCN, sizeof(SCN) / sizeof(*SCN)); }
