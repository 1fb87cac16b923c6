#define _GNU_SOURCE
#include "cli.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

sbuf cli_input;
size_t cli_cut[64];
int cli_ncut, cli_argc, cli_raw, cli_how, cli_nexpect, cli_expect_bad, cli_rand = -1, cli_no_conf;
char cli_conf[16384], cli_delim, cli_sep;
const char *cli_argv[24];
double cli_timeout;
blob cli_expect[300];
static char conf_path[300];
static size_t fed;
static int next_cut;
static int64_t t_start;
static double t_silent;
extern int repo_main(int, char **);

int
RAND_bytes(unsigned char *b, int n)
{
	int i;

	for (i = 0; i < n; i++)
		b[i] = cli_rand >= 0 ? (unsigned char)cli_rand : (unsigned char)(0x5a + i * 7);
	return 1;
}

void
cli_free_expect(void)
{
	int i;

	for (i = 0; i < cli_nexpect; i++)
		free(cli_expect[i].p);
	cli_nexpect = cli_expect_bad = 0;
}

static int
connect_outcome(conn *c)
{
	(void)c;
	if (peer_faults && mc_choose(2, "connect: established/refused") == 1) {
		PEER[c->index].refused = PEER[c->index].misbehaved = 1;
		return 3;
	}
	return 2;
}

void
cli_reset(void)
{
	sim_reset();
	peer_reset();
	cli_free_expect();
	sb_free(&cli_input);
	cli_ncut = 0;
	fed = 0;
	next_cut = 0;
	cli_raw = 0;
	cli_rand = -1;
	cli_no_conf = 0;
	cli_delim = '\t';
	cli_sep = '\27';
	cli_timeout = 15;
	cli_argc = 0;
	t_silent = -1;
	snprintf(conf_path, sizeof(conf_path), "%s/mcc-%d.cfg", getenv("MC_TMP") ? getenv("MC_TMP") : "/tmp",
	    mc_worker() < 0 ? 0 : mc_worker());
	snprintf(cli_conf, sizeof(cli_conf), "identity = tester\npassword = secret\n");
	cli_arg("send_nsca");
	cli_arg("-c");
	cli_arg(conf_path);
}
void cli_arg(const char *a) { cli_argv[cli_argc++] = a; cli_argv[cli_argc] = NULL; }

enum { E_STDIN = 60, E_EOF };
static int
enabled(envevent *ev, int max)
{
	int n = peer_events(ev, max);

	if (n < max && fed < cli_input.n) {
		ev[n].kind = E_STDIN; ev[n].a = next_cut; ev[n++].label = "input arrives";
	} else if (n < max && !W.stdin_eof) {
		ev[n].kind = E_EOF; ev[n++].label = "end of input";
	}
	return n;
}

static void
feed(void)
{
	size_t to = next_cut < cli_ncut ? cli_cut[next_cut] : cli_input.n;

	next_cut++;
	if (to > cli_input.n)
		to = cli_input.n;
	if (to > fed) {
		sb_add(&W.stdin_avail, cli_input.p + fed, to - fed);
		fed = to;
	}
}

static void
apply(const envevent *e)
{
	int i;

	if (e->kind == E_STDIN)
		feed();
	else if (e->kind == E_EOF)
		W.stdin_eof = 1;
	else
		peer_apply(e);
	for (i = 0; i < W.nconns; i++)
		if (PEER[i].silent && t_silent < 0)
			t_silent = sim_now();
}

static void
on_step(void)
{
	int i;

	for (i = 0; i < W.nconns; i++)
		peer_check_transcript(i);
	if (W.nconns > 1)
		mc_fail("the client connected more than once");
	if (t_silent >= 0 && cli_timeout > 0 && sim_now() > t_silent + 1.5 * cli_timeout + 1)
		mc_fail("the client still waits %.1f seconds after the server fell silent (timeout: %.1f)",
		    sim_now() - t_silent, cli_timeout);
}

void
cli_run(void)
{
	FILE *f = fopen(conf_path, "w");

	if (f == NULL)
		mc_fail("harness: cannot write %s", conf_path);
	fputs(cli_conf, f);
	fclose(f);
	if (cli_no_conf)
		unlink(conf_path);
	W.stdin_active = 1;
	sim_enabled = enabled;
	sim_apply = apply;
	sim_on_step = on_step;
	sim_next_time = peer_next_time;
	sim_connect_outcome = connect_outcome;
	t_start = W.real / 1000000000;
	if (cli_ncut > 0 && cli_cut[0] == 0)
		next_cut = 1;
	else
		feed();
	cli_how = sim_run_main(repo_main, cli_argc, (char **)cli_argv);
	if (cli_how == 2)
		mc_fail("the client called execvp()");
}

/* --------------------------------------------------- what the manual says */
static void
expect(const char *p, size_t n)
{
	if (cli_nexpect >= 300)
		mc_fail("harness: too many expected commands");
	cli_expect[cli_nexpect].p = malloc(n + 1);
	memcpy(cli_expect[cli_nexpect].p, p, n);
	cli_expect[cli_nexpect].p[n] = '\0';
	cli_expect[cli_nexpect++].n = n;
}

/* An expected command starts with \1 where a current timestamp belongs. */
void
cli_reference(void)
{
	size_t pos = 0, n = cli_input.n;
	const char *in = cli_input.p ? cli_input.p : "";
	char sep = cli_raw ? '\n' : cli_sep;

	cli_free_expect();
	while (pos < n && !cli_expect_bad) {
		size_t end = pos, a, b, i;
		sbuf o = { 0 };

		while (end < n && in[end] != sep)
			end++;
		a = pos;
		b = end;
		pos = end + 1;
		while (a < b && (in[a] == '\r' || in[a] == '\n'))
			a++;
		if (a == b)
			continue;
		if (cli_raw) {
			while (b > a && in[b - 1] == '\r')
				b--;
			while (a < b && (in[a] == ' ' || in[a] == '\t'))
				a++;
			if (in[a] != '[' || a == b)
				sb_adds(&o, "\1");
			sb_add(&o, in + a, b - a);
		} else {
			size_t f[4];
			int nf = 1;

			if (in[b - 1] == '\n')
				b--;
			f[0] = a;
			for (i = a; i < b && nf < 4; i++)
				if (in[i] == cli_delim)
					f[nf++] = i + 1;
			if (nf < 3) {
				cli_expect_bad = 1;
				break;
			}
			sb_adds(&o, nf == 4 ? "\1PROCESS_SERVICE_CHECK_RESULT" : "\1PROCESS_HOST_CHECK_RESULT");
			for (i = 0; i < (size_t)nf; i++) {
				size_t e = i + 1 < (size_t)nf ? f[i + 1] - 1 : b, k;

				sb_adds(&o, ";");
				for (k = f[i]; k < e; k++)
					if (in[k] == '\\')
						sb_adds(&o, "\\\\");
					else if (in[k] == '\n')
						sb_adds(&o, "\\n");
					else
						sb_add(&o, in + k, 1);
			}
		}
		while (o.p[o.n - 1] == '\r')
			o.n--;
		sb_adds(&o, "\n");
		expect(o.p, o.n);
		sb_free(&o);
	}
}

static void
vis(const char *p, size_t n, char *o, size_t sz)
{
	size_t i, l = 0;

	for (i = 0; i < n && l + 6 < sz; i++) {
		unsigned char c = (unsigned char)p[i];

		if (c >= 32 && c < 127 && c != '\\')
			o[l++] = (char)c;
		else
			l += (size_t)sprintf(o + l, "\\%03o", c);
	}
	o[l] = '\0';
}

static int
matches(const char *got, size_t gn, const blob *e)
{
	const char *p = e->p;
	size_t n = e->n;
	char *end;
	unsigned long t;

	if (*p == '\1') {
		if (gn < 4 || got[0] != '[' || got[1] < '0' || got[1] > '9')
			return 0;
		t = strtoul(got + 1, &end, 10);
		if (strncmp(end, "] ", 2) || t < (unsigned long)t_start || t > (unsigned long)(W.real / 1000000000))
			return 0;
		end += 2;
		gn -= (size_t)(end - got);
		got = end;
		p++;
		n--;
	}
	return gn == n && memcmp(got, p, n) == 0;
}

void
cli_judge(void)
{
	peer *p = &PEER[0];
	conn *c = &W.conns[0];
	int i, acked = 0;
	char a[700], b[700], in[500];
	uint64_t h = 5;

	vis(cli_input.p ? cli_input.p : "", cli_input.n, in, sizeof(in));
	if (cli_how != 0 && W.exited == 2)
		mc_fail("the client was killed by a signal");
	for (i = 0; i < p->ncmd; i++) {
		if (i >= cli_nexpect) {
			vis(p->cmd[i], p->cmdlen[i], a, sizeof(a));
			mc_fail("input \"%s\": unexpected command number %d: %s", in, i, a);
		}
		if (!matches(p->cmd[i], p->cmdlen[i], &cli_expect[i])) {
			vis(p->cmd[i], p->cmdlen[i], a, sizeof(a));
			vis(cli_expect[i].p, cli_expect[i].n, b, sizeof(b));
			mc_fail("input \"%s\": command number %d is \"%s\", expected: \"%s\"", in, i, a, b);
		}
		if (p->acked[i])
			acked++;
		h = mc_hash(h, p->cmd[i], p->cmdlen[i]);
	}
	h = mc_hash(h, &W.exit_code, sizeof(int));
	h = mc_hash(h, &acked, sizeof(int));
	if (W.exit_code == 0) {
		if (acked < cli_nexpect || cli_expect_bad)
			mc_fail("input \"%s\": the client exits 0, but the server confirmed only %d of %d command(s)%s", in, acked,
			    cli_nexpect, cli_expect_bad ? " and the input is invalid" : "");
		if (!p->quit_acked && p->misbehaved && p->said_fail)
			mc_fail("input \"%s\": the client exits 0, although the server reported an error", in);
	} else {
		if (W.log.n == 0)
			mc_fail("input \"%s\": the client exits %d without any message", in, W.exit_code);
		if (!p->misbehaved && !p->bad_late && !cli_expect_bad && W.k_stdin_error >= 0)
			mc_fail("input \"%s\": the client exits %d although nothing went wrong: %s", in, W.exit_code, W.log.p);
	}
	if (!p->misbehaved && !p->bad_late && W.k_stdin_error >= 0) {
		if (acked != cli_nexpect)
			mc_fail("input \"%s\": only %d of %d command(s) were submitted", in, acked, cli_nexpect);
		if (!cli_expect_bad) {
			if (!p->quit_acked)
				mc_fail("input \"%s\": the session was not finished with QUIT", in);
			if (!c->peer_close_notify)
				mc_fail("input \"%s\": the TLS connection was not shut down", in);
			if (c->fd >= 0)
				mc_fail("input \"%s\": the connection was left open", in);
			if (W.log.n > 0)
				mc_fail("input \"%s\": unexpected message: %s", in, W.log.p);
		}
	}
	mc_nontrivial(h);
	vis(p->ncmd ? p->cmd[0] : "", p->ncmd ? p->cmdlen[0] : 0, a, 120);
	mc_sample("input \"%.100s\": %d command(s) expected, %d confirmed, exit status %d; first: %s", in, cli_nexpect, acked,
	    W.exit_code, a);
}

void
cli_go(void)
{
	cli_reference();
	cli_run();
	cli_judge();
}

void
cli_must_refuse(const char *why)
{
	char in[600];

	vis(cli_conf, strlen(cli_conf), in, sizeof(in));
	cli_run();
	if (W.exit_code == 0)
		mc_fail("the client exits 0, although %s", why);
	if (W.log.n == 0)
		mc_fail("no message, although %s", why);
	if (W.nconns > 0 || W.gai_calls > 0)
		mc_fail("the client contacts the server, although %s", why);
	mc_nontrivial(mc_hash(1, W.log.p, W.log.n));
	mc_sample("%s: refused: %.200s", why, W.log.p);
}
