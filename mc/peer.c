#define _GNU_SOURCE
#include "peer.h"
#ifdef REALSSL
#include "rssl.h"
#endif
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

peer PEER[MAXCONN];
int peer_impatient, peer_faults, peer_script[64], peer_nscript, peer_reaction;
double peer_delay, peer_delays[64];
int peer_cut, peer_cut_together; /* first record of a PB_TEXT response */
const char *peer_id, *peer_psk, *peer_trailing, *peer_text;
double peer_drip;
static double t_request[MAXCONN], t_drip[MAXCONN];

#ifdef REALSSL
static void
refused(conn *c)
{
	PEER[c->index].misbehaved = 1;
	PEER[c->index].phase = 5;
}
#endif

void
peer_reset(void)
{
	int i, j;

#ifdef REALSSL
	rssl_refused = refused;
#endif

	for (i = 0; i < MAXCONN; i++) {
		for (j = 0; j < PEER[i].ncmd; j++)
			free(PEER[i].cmd[j]);
		memset(&PEER[i], 0, sizeof(PEER[i]));
		t_request[i] = 0;
	}
	peer_impatient = peer_faults = peer_nscript = peer_reaction = 0;
	peer_delay = peer_drip = 0;
	peer_text = "";
	peer_cut = peer_cut_together = 0;
	memset(t_drip, 0, sizeof(t_drip));
	memset(peer_delays, 0, sizeof(peer_delays));
	peer_id = "tester";
	peer_psk = "secret";
	peer_trailing = " You're not authorized";
}

static const char *
eol(const char *p, size_t n) { return n ? memchr(p, '\n', n) : NULL; }

/* How long the server takes for its next reaction */
static double
delay(void)
{
	return peer_reaction < 64 && peer_delays[peer_reaction] > 0 ? peer_delays[peer_reaction] : peer_delay;
}

/* Is a complete request waiting? */
static int
ready(int i)
{
	peer *p = &PEER[i];
	conn *c = &W.conns[i];
	const char *b = c->out.p + p->seen;
	size_t n = c->out.n - p->seen;

	if (p->phase == 1 || p->phase == 2)
		return eol(b, n) != NULL;
	if (p->phase == 3)
		return n >= p->need;
	return 0;
}

static int
waiting_to_react(int i)
{
	peer *p = &PEER[i];
	conn *c = &W.conns[i];

	if (p->silent || c->fd < 0 || p->phase == 5)
		return 0;
	if (c->peer_close_notify && !p->cn_sent)
		return 2;
	if (p->phase == 0)
		return c->handshaken;
	return ready(i);
}

static int
can_react(int i)
{
	double t;

	if (!waiting_to_react(i)) {
		t_request[i] = 0;
		return 0;
	}
	if (delay() <= 0)
		return 1;
	if (t_request[i] == 0)
		t_request[i] = sim_now();
	t = t_request[i] + delay();
	return sim_now() >= t - 1e-9;
}

double
peer_next_time(void)
{
	double best = 1e18;
	int i;

	for (i = 0; i < W.nconns; i++) {
		if (waiting_to_react(i) && delay() > 0 && t_request[i] > 0 && t_request[i] + delay() < best)
			best = t_request[i] + delay();
		if (W.conns[i].fd >= 0 && t_drip[i] > 0 && t_drip[i] < best)
			best = t_drip[i];
	}
	return best;
}

enum { E_CONNECTED = 40, E_REFUSED, E_REACT, E_DELIVER, E_UNBLOCK, E_ARRIVE };
static const char *bname[] = { "the server reacts", "the server says FAIL", "the server says BAIL",
	"the server says something else", "the server sends the wrong kind of response", "the server sends close_notify",
	"the server closes the connection", "the server resets the connection", "the server sends garbage",
	"the server falls silent", "the server sends an overlong line", "the server almost says OKAY",
	"the server sends an empty line", "the server speaks another version", "the server reacts byte by byte",
	"the server reacts with a bare LF", "", "the server sends a strange response", "the server sends octet by octet, without end" };

int
peer_events(envevent *ev, int max)
{
	int i, b, n = 0;

	for (i = 0; i < W.nconns; i++) {
		conn *c = &W.conns[i];

		if (c->fd < 0)
			continue;
		if (c->blocked && n < max) {
			ev[n].kind = E_UNBLOCK; ev[n].a = i; ev[n++].label = "socket becomes writable";
		}
		if (c->outgoing && c->connect_state == 1 && n + 1 < max) {
			ev[n].kind = E_CONNECTED; ev[n].a = i; ev[n++].label = "TCP connection established";
			if (peer_faults) {
				ev[n].kind = E_REFUSED; ev[n].a = i; ev[n++].label = "TCP connection refused";
			}
			continue;
		}
		if (sim_tls && sim_tls->held(c) && n < max) {
			ev[n].kind = E_ARRIVE; ev[n].a = i; ev[n++].label = "the rest of the TLS flight arrives";
			continue;
		}
		if (c->nin < c->nq && n < max) {
			if (t_drip[i] > 0 && sim_now() < t_drip[i] - 1e-9)
				continue;
			ev[n].kind = E_DELIVER; ev[n].a = i; ev[n++].label = "the next record arrives";
			continue;
		}
		if (!can_react(i))
			continue;
		for (b = PB_OK; b <= PB_DRIP && n < max; b++) {
			int ph = PEER[i].phase, close = c->peer_close_notify && !PEER[i].cn_sent;

			if (peer_reaction < peer_nscript) {
				if (b != peer_script[peer_reaction])
					continue;
			} else if (b != PB_OK && (!peer_faults || b >= PB_LAST))
				break;
			if ((ph == 0 || close) && b != PB_OK && b != PB_FIN && b != PB_RST && b != PB_GARBAGE && b != PB_SILENT)
				continue;
			if (b == PB_VERSION && ph != 1)
				continue;
			ev[n].kind = E_REACT; ev[n].a = i; ev[n].b = b; ev[n++].label = bname[b];
		}
	}
	return n;
}

static void
say(int i, const char *line, int how)
{
	conn *c = &W.conns[i];
	size_t n = strlen(line), k;

	mc_note("t=%.1f server: %.*s", sim_now(), (int)(n < 60 ? n : 60), line);
	if (how == PB_BYTEWISE) {
		for (k = 0; k < n; k++)
			sim_push_data(c, line + k, 1);
		sim_deliver(c, 1);
	} else if (how == PB_TEXT && peer_cut > 0 && (size_t)peer_cut < n) {
		sim_push_data(c, line, (size_t)peer_cut);
		sim_push_data(c, line + peer_cut, n - (size_t)peer_cut);
		sim_deliver(c, peer_cut_together ? c->nq : 1);
	} else {
		sim_push_data(c, line, n);
		sim_deliver(c, c->nq);
	}
}

static void
raw(int i, itemkind k)
{
	sim_push(&W.conns[i], k);
	sim_deliver(&W.conns[i], W.conns[i].nq);
}

static void
bad(peer *p)
{
	if (p->quit_acked)
		p->bad_late = 1;
	else
		p->misbehaved = 1;
}

int
peer_apply(const envevent *e)
{
	conn *c = &W.conns[e->a];
	peer *p = &PEER[e->a];
	char line[200], *q, resp[3200];
	size_t n, len;
	int b = e->b, ph = p->phase, data = 0, quit = 0;
	item *it;

	switch (e->kind) {
	case E_UNBLOCK:
		c->blocked = 0;
		return 1;
	case E_ARRIVE:
		sim_tls->arrive(c);
		return 1;
	case E_CONNECTED:
		c->connect_state = 2;
		return 1;
	case E_REFUSED:
		c->connect_state = 3;
		p->refused = p->misbehaved = 1;
		return 1;
	case E_DELIVER:
		sim_deliver(c, 1);
		if (t_drip[e->a] > 0) {
			t_drip[e->a] = sim_now() + peer_drip;
			sim_push_data(c, "x", 1);
		}
		return 1;
	case E_REACT:
		break;
	default:
		return 0;
	}
	t_request[e->a] = 0;
	peer_reaction++;
	mc_note("t=%.1f %s", sim_now(), bname[b]);
	if (c->peer_close_notify && !p->cn_sent) {
		p->cn_sent = 1;
		p->phase = 5;
		switch (b) {
		case PB_OK: raw(e->a, I_CLOSE_NOTIFY); break;
		case PB_FIN: bad(p); raw(e->a, I_FIN); break;
		case PB_RST: bad(p); raw(e->a, I_RST); break;
		case PB_GARBAGE: bad(p); raw(e->a, I_GARBAGE); break;
		default: bad(p); p->silent = 1; break;
		}
		return 1;
	}
	if (ph == 0) {
		switch (b) {
		case PB_OK:
#ifdef REALSSL
			rssl_server_id = peer_id;       /* verified by the TLS endpoint */
			rssl_server_psk = peer_psk;
			it = sim_push(c, I_HELLO);
			sim_deliver(c, c->nq);
			p->phase = 1;
			return 1;
#endif
			if (strcmp(c->id, peer_id) || c->psklen != (int)strlen(peer_psk) || memcmp(c->psk, peer_psk, strlen(peer_psk))) {
				mc_note("wrong credentials: %s", c->id);
				p->misbehaved = 1;
				raw(e->a, I_GARBAGE);
				p->phase = 5;
				return 1;
			}
			it = sim_push(c, I_HELLO);
			sim_deliver(c, c->nq);
			p->phase = 1;
			return 1;
		case PB_FIN: raw(e->a, I_FIN); break;
		case PB_RST: raw(e->a, I_RST); break;
		case PB_GARBAGE: raw(e->a, I_GARBAGE); break;
		default: p->silent = 1; break;
		}
		bad(p);
		if (!p->silent)
			p->phase = 5;
		return 1;
	}
	/* consume the request */
	q = c->out.p + p->seen;
	n = c->out.n - p->seen;
	if (ph == 3) {
		data = 1;
		len = p->need;
		p->cmd[p->ncmd] = malloc(len + 1);
		memcpy(p->cmd[p->ncmd], q, len);
		p->cmd[p->ncmd][len] = '\0';
		p->cmdlen[p->ncmd++] = len;
		if (p->ncmd >= 40)
			mc_fail("harness: too many commands");
		p->phase = 2;
	} else {
		len = (size_t)(eol(q, n) - q) + 1;
		if (len > 1024)
			mc_fail("the client sent a request line of %zu octets (limit: 1024)", len);
		if (len >= sizeof(line))
			len = sizeof(line) - 1;
		memcpy(line, q, len);
		line[len] = '\0';
		len = (size_t)(eol(q, n) - q) + 1;
		if (len < 2 || q[len - 2] != '\r')
			mc_fail("a request line isn't CRLF-terminated: %s", line);
		if (!strncmp(line, "BAIL ", 5)) {
			p->seen += len;
			p->bailed = 1;
			p->phase = 4;
			return 1;
		}
		if (ph == 1) {
			size_t k;

			if (strncmp(line, "MOIN 1 ", 7))
				mc_fail("the first request is not MOIN 1: %s", line);
			for (k = 7; k < len - 2; k++)
				if (line[k] <= ' ' || line[k] > 126)
					mc_fail("illegal session ID: %s", line);
			if (len - 2 - 7 < 2 || len - 2 - 7 > 64)
				mc_fail("the session ID isn't 2-64 characters long: %s", line);
		} else {
			unsigned long sz;
			char *end;

			if (!strcmp(line, "QUIT\r\n"))
				quit = 1;
			else if (!strncmp(line, "PUSH ", 5) && line[5] >= '0' && line[5] <= '9') {
				sz = strtoul(line + 5, &end, 10);
				if (strcmp(end, "\r\n"))
					mc_fail("malformed request: %s", line);
				p->need = sz;
				if (sz == 0)
					mc_fail("PUSH of an empty command");
			} else
				mc_fail("malformed request: %s", line);
		}
	}
	p->seen += len;
	switch (b) {
	case PB_OK: case PB_BYTEWISE: case PB_LF:
		snprintf(resp, sizeof(resp), "%s%s", ph == 1 ? "MOIN 1" : "OKAY", b == PB_LF ? "\n" : "\r\n");
		if (ph == 1) {
			p->phase = 2;
			p->moin_acked = 1;
		} else if (data)
			p->acked[p->ncmd - 1] = 1;
		else if (quit) {
			p->phase = 4;
			p->quit_acked = 1;
		} else
			p->phase = 3;
		say(e->a, resp, b);
		return 1;
	case PB_FAIL:
	case PB_BAIL:
		snprintf(resp, sizeof(resp), "%s%s\r\n", b == PB_FAIL ? "FAIL" : "BAIL", peer_trailing);
		p->said_fail = 1;
		say(e->a, resp, b);
		break;
	case PB_TEXT: snprintf(resp, sizeof(resp), "%s\r\n", peer_text); say(e->a, resp, b); break;
	case PB_DRIP:
		{
			static const char x[] = "x";

			sim_push_data(c, x, 1);
			sim_deliver(c, 1);
			sim_push_data(c, x, 1);
			t_drip[e->a] = sim_now() + peer_drip;
		}
		break;
	case PB_OTHER: say(e->a, "WHAT is this\r\n", b); break;
	case PB_WRONG: say(e->a, ph == 1 ? "OKAY\r\n" : "MOIN 1\r\n", b); break;
	case PB_VERSION: say(e->a, "MOIN 2\r\n", b); break;
	case PB_EMPTY: say(e->a, "\r\n", b); break;
	case PB_NOTQUITE: say(e->a, ph == 1 ? "MOI 1\r\n" : "OKA\r\n", b); break;
	case PB_LONG:
		memset(resp, 'x', 3000);
		memcpy(resp, ph == 1 ? "MOIN 1" : "OKAY", ph == 1 ? 6 : 4);
		resp[3000] = '\0';
		say(e->a, resp, b);
		break;
	case PB_CN:
		raw(e->a, I_CLOSE_NOTIFY);
		p->cn_sent = 1;
		break;
	case PB_FIN: raw(e->a, I_FIN); break;
	case PB_RST: raw(e->a, I_RST); break;
	case PB_GARBAGE: raw(e->a, I_GARBAGE); break;
	case PB_SILENT: p->silent = 1; break;
	}
	bad(p);
	/* afterwards it only answers the shutdown */
	p->phase = 4;
	return 1;
}

/* What may have been sent at this point? */
void
peer_check_transcript(int i)
{
	peer *p = &PEER[i];
	conn *c = &W.conns[i];
	size_t n = c->out.n - p->seen;

	if (p->phase == 0 && c->out.n > 0)
		mc_fail("application data before the TLS handshake was complete");
	if (p->phase == 1 && n > 0 && eol(c->out.p, c->out.n) && eol(c->out.p, c->out.n) != c->out.p + c->out.n - 1)
		mc_fail("data sent before the MOIN response");
	if (peer_impatient && n > 6 && !memcmp(c->out.p + c->out.n - 7, "\nQUIT\r\n", 7))
		return;         /* the client gave up */
	if (p->phase == 2 && n > 0 && eol(c->out.p + p->seen, n) && eol(c->out.p + p->seen, n) != c->out.p + c->out.n - 1)
		mc_fail("data sent before the response to the previous request: %.*s", (int)(n < 200 ? n : 200), c->out.p + p->seen);
	if (p->phase == 4 && n > 0) {
		/* The session is over: at most one farewell. */
		const char *q = c->out.p + p->seen;

		if (p->bailed || p->quit_acked)
			mc_fail("data sent after the end of the session: %.*s", (int)(n < 200 ? n : 200), q);
		if (strncmp(q, "QUIT\r\n", n < 6 ? n : 6) && strncmp(q, "BAIL ", n < 5 ? n : 5) && !(p->said_fail && p->moin_acked))
			mc_fail("data sent in spite of the server's unacceptable response: %.*s", (int)(n < 200 ? n : 200), q);
		if (eol(q, n) && eol(q, n) != q + n - 1)
			mc_fail("data sent after the farewell: %.*s", (int)(n < 200 ? n : 200), q);
	}
	if (p->phase == 3 && n > p->need)
		mc_fail("more data sent than announced (%zu of %zu)", n, p->need);
}
