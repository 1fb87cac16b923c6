/*
 * Scenarios for the server's start, restart and exit: command line and
 * configuration, privileges, PID file, socket activation, logging.
 */
#define _GNU_SOURCE
#include "srv.h"
#include <dirent.h>
#include <errno.h>
#include <ftw.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

#define ARG ((int)(intptr_t)arg)
#define A(n) ((void *)(intptr_t)(n))
#define PW_A "correct-horse-battery"
#define PW_B "staple-of-the-other"
#define PID1 "/sim/run/nsca.pid"

static int stop_sig;
static sbuf conf;                       /* global settings of this execution */
static sbuf what;                       /* describes it */
static const char *exp_fifo, *exp_pid, *exp_tmp;
static int n_listen_open;               /* resources seen */
static int ready, activated, foreground;
static int daemon_listening, daemon_calls;
static char args[40][300];

static const char *confdir(void) { const char *t = getenv("MC_TMP"); return t ? t : "/tmp"; }
static void
arg(const char *fmt, ...)
{
	va_list ap;

	va_start(ap, fmt);
	vsnprintf(args[srv_argc], sizeof(args[0]), fmt, ap);
	va_end(ap);
	sb_addf(&what, " %s", args[srv_argc]);
	srv_argv[srv_argc] = args[srv_argc];
	srv_argc++;
}
static void
set(const char *fmt, ...)
{
	char b[2000];
	va_list ap;

	va_start(ap, fmt);
	vsnprintf(b, sizeof(b), fmt, ap);
	va_end(ap);
	sb_addf(&conf, "%s\n", b);
	sb_addf(&what, " {%s}", b);
}

/* Passwords never show up in any output. */
static void
check_secrets(void)
{
	static const char *const pw[] = { PW_A, PW_B, "wrong-secret" };
	size_t i;

	for (i = 0; i < 3; i++)
		if ((W.log.n && memmem(W.log.p, W.log.n, pw[i], strlen(pw[i])))
		    || (W.out.n && memmem(W.out.p, W.out.n, pw[i], strlen(pw[i])))
		    || (W.notify.n && memmem(W.notify.p, W.notify.n, pw[i], strlen(pw[i]))))
			mc_fail("the password %s was written to the log:%s", pw[i], what.p);
}
static int has(const sbuf *b, const char *s) { return b->n && memmem(b->p, b->n, s, strlen(s)) != NULL; }

static void
reset(void)
{
	srv_reset();
	sb_free(&conf);
	sb_free(&what);
	sb_adds(&what, "");
	W.k_all_paths = 1;
	W.pm = 1;
	W.inherited = 1;
	stop_sig = SIGTERM;
	exp_fifo = SIM_FIFO;
	exp_pid = NULL;
	exp_tmp = SIM_TMP;
	ready = activated = foreground = 0;
	daemon_listening = daemon_calls = 0;
	n_listen_open = 0;
	unsetenv("WATCHDOG_USEC");
	setenv("NOTIFY_SOCKET", "@sim", 1);
	setenv("LISTEN_FDS", "1", 1);
	setenv("LISTEN_PID", "1", 1);
	snprintf(srv_conf_path, sizeof(srv_conf_path), "%s/mc-%d.cfg", confdir(), mc_worker() < 0 ? 0 : mc_worker());
	arg("nsca-ng");
}

static void
users(void)
{
	sb_addf(&conf, "authorize \"a\" {\n password = \"" PW_A "\"\n commands = \"OK.*\"\n}\n");
	sb_addf(&conf, "authorize \"b\" {\n password = \"" PW_B "\"\n hosts = \"h1\"\n}\n");
	/* the model's view */
	SCONF.u[0] = (user){ .id = "a", .pw = PW_A, .cmds = { "OK.*", NULL } };
	SCONF.u[1] = (user){ .id = "b", .pw = PW_B, .hosts = { "h1", NULL } };
}
static client *
session(const char *id, const char *pw, const char *cmd)
{
	client *c = cl_new(id, pw);

	cl_conn(c);
	cl_moin(c);
	if (cmd)
		cl_pushs(c, "%s", cmd);
	cl_quit(c);
	cl_close(c);
	return c;
}

/* Starts the server, serves the clients, ends it with stop_sig. */
static void
go(void)
{
	char *raw;

	raw = strdup(conf.n ? conf.p : "");
	SCONF.raw = raw;
	W.fifo_path = exp_fifo;
	W.quit_sig = stop_sig;
	W.tmp_path = exp_tmp;
	if (activated) {
		W.sd_fds = activated;
		if (activated == 1) {
			W.sd_fd.kind = K_LISTEN;
			W.sd_fd.peer = -1;
			W.listen_fd = 3;
			W.nopen++;
		}
	}
	if (srv_final == NULL)
		mc_fail("harness: no final check");
	serve();
	check_secrets();
	SCONF.raw = NULL;
	free(raw);
}

static void
failed_start(const char *why)
{
	if (W.exited != 1 || W.exit_code == 0)
		mc_fail("exit status %d although %s:%s; log: %s", W.exit_code, why, what.p, W.log.n ? W.log.p : "");
	if (W.terminating || W.nfw > 0 || has(&W.notify, "READY=1") || has(&W.log, "starting up"))
		mc_fail("the server went into operation although %s:%s", why, what.p);
	if (W.daemonized)
		mc_fail("the server went into the background although %s:%s", why, what.p);
	if (W.exec_called)
		mc_fail("the server restarts although %s:%s", why, what.p);
	mc_nontrivial(mc_hash(3, W.err.n ? W.err.p : "", W.err.n));
	mc_sample("%s:%.200s: %.200s", why, what.p, W.err.n ? W.err.p : "");
}
static void
good_end(void)
{
	if (!W.terminating)
		mc_fail("the server didn't start (exit status %d):%s; %s", W.exit_code, what.p, W.log.n ? W.log.p : "");
	if (stop_sig == SIGHUP) {
		char *e = NULL;
		size_t en;
		FILE *f;
		int i;

		if (!W.exec_called)
			mc_fail("no restart after SIGHUP:%s; %s", what.p, W.log.n ? W.log.p : "");
		f = open_memstream(&e, &en);
		for (i = 0; i < srv_argc; i++)
			fprintf(f, "%s\n", srv_argv[i]);
		fclose(f);
		if (strcmp(W.exec_path, srv_argv[0]) || W.exec_args.n != en || memcmp(W.exec_args.p, e, en))
			mc_fail("restarted with other arguments:%s; %s: %s", what.p, W.exec_path, W.exec_args.n ? W.exec_args.p : "none");
		free(e);
		if (getenv("LISTEN_FDS") == NULL || getenv("LISTEN_PID") == NULL || getenv("NOTIFY_SOCKET") == NULL)
			mc_fail("the restarted server's environment lacks systemd's variables:%s", what.p);
		if (W.exec_left)
			mc_fail("%d connection(s) or file(s) are left open for the restarted server:%s", W.exec_left, what.p);
		if (W.sd_fds > 0 && W.exec_cloexec3)
			mc_fail("the socket passed by systemd isn't available to the restarted server:%s", what.p);
	} else if (W.exec_called)
		mc_fail("restart without SIGHUP");
	else if (W.exited != 1 || W.exit_code != 0)
		mc_fail("exit status %d:%s; %s", W.exit_code, what.p, W.log.n ? W.log.p : "");
	if (W.daemonized && (strcmp(W.cwd, "/") || !W.detached))
		mc_fail("in the background, the server keeps %s:%s", W.detached ? "its working directory" : "the standard descriptors", what.p);
	if (W.inherited && !activated)
		mc_fail("a descriptor the server inherited is kept open:%s", what.p);
}
static void
quiet_end(void)
{
	good_end();
}

#include "h_start1.c"
#include "h_start2.c"

static mc_scenario SCN[] = {
	{ "listen", "C16", sc_listen, A(0), 0, 0 },
	{ "paths", "C16", sc_paths, A(0), 0, 0 },
	{ "limits", "C16", sc_limits, A(0), 0, 0 },
	{ "timeout-setting", "C16", sc_timeout_setting, A(0), 0, 0 },
	{ "queue-setting", "C16", sc_queue_setting, A(0), 0, 0 },
	{ "bad-options", "C16", sc_bad, A(0), 0, 0 },
	{ "bad-settings", "C16", sc_bad, A(1), 0, 0 },
	{ "info", "C16", sc_info, A(0), 0, 0 },
	{ "include", "C16", sc_include, A(0), 0, 0 },
	{ "include-names", "C16", sc_include_names, A(0), 0, 0 },
	{ "privileges", "C15", sc_priv, A(0), 2, 3 },
	{ "startup-failures", "C16 C14", sc_fail, A(0), 2, 3 },
	{ "pidfile", "C14", sc_pid, A(0), 2, 3 },
	{ "systemd", "C17", sc_systemd, A(0), 1, 2 },
	{ "watchdog", "C17", sc_watchdog, A(0), 1, 2 },
	{ "log", "C18", sc_log, A(0), 0, 0 },
	{ "log-text", "C18", sc_log_text, A(0), 0, 0 },
};

int main(int argc, char **argv) { return mc_main(argc, argv, SCN, sizeof(SCN) / sizeof(*SCN)); }
