/* C14: PID file, C16: failures, C17: systemd, C18: logging */
#include <ctype.h>

/* ---------------------------------------------------------- failures */
static int faults_at_ready, at_ready;
static void
ready_resource(const char *w, const char *p)
{
	on_resource(w, p);
	if (!strcmp(w, "notify") && !strcmp(p, "READY=1")) {
		faults_at_ready = W.n_faults;
		at_ready++;
	}
}
static void
fail_end(void)
{
	simfile *f = exp_pid ? sim_find_file(exp_pid) : NULL;

	if (at_ready == 0) {
		if (W.exited != 1 || W.exit_code == 0)
			mc_fail("exit status %d, though the server didn't start:%s", W.exit_code, what.p);
		if (W.n_faults == 0)
			mc_fail("the server didn't start:%s; log: %s", what.p, W.log.n ? W.log.p : "");
		if (W.log.n == 0)
			mc_fail("no message, though the server couldn't start:%s", what.p);
		if (!W.daemonized && W.err.n == 0)
			mc_fail("no message on standard error, though the server couldn't start:%s", what.p);
		if (W.terminating || W.nfw > 0 || has(&W.log, "starting up") || W.exec_called)
			mc_fail("the server went into operation in spite of a failure:%s", what.p);
		if (f && W.n_faults == 1 && !W.n_unlink_faults && !has(&W.log, "Cannot create"))
			mc_fail("the PID file was left behind:%s", what.p);
	} else {
		if (faults_at_ready)
			mc_fail("the server went into operation, though %d operation(s) failed:%s", faults_at_ready, what.p);
		if (W.n_faults == 0) {
			good_end();
			if (f && !W.n_unlink_faults)
				mc_fail("the PID file was left behind:%s", what.p);
		} else if (W.exited != 1 && !W.exec_called)
			mc_fail("the server crashed");
	}
	mc_nontrivial(mc_hash(3, W.log.n ? W.log.p : "", W.log.n));
}
static void
sc_fail(void *arg_)
{
	int mode = mc_choose_free(3, "foreground/daemon/activated"), kind = mc_choose_free(5, "fault"), pid = mc_choose_free(2, "PID file"), sig = mc_choose_free(3, "signal");
	static const int te[] = { EACCES, ENOENT, ENOTDIR, EROFS };

	(void)arg_;
	reset();
	stop_sig = sig == 0 ? SIGTERM : sig == 1 ? SIGINT : SIGHUP;
	W.exec_ok = 1;
	if (mode == 0) { foreground = 1; arg("-F"); }
	if (mode == 2) { activated = 1; W.sd_fd.nonblock = 1; }
	arg("-c%s", srv_conf_path);
	set("command_file = \"" SIM_FIFO "\"\ntemp_directory = \"" SIM_TMP "\"");
	if (pid) { set("pid_file = \"" PID1 "\""); exp_pid = PID1; }
	users();
	standard();
	at_ready = faults_at_ready = 0;
	sim_on_resource = ready_resource;
	srv_on_quiescent = up;
	srv_final = fail_end;
	switch (kind) {
	case 0: W.k_bind_faults = 1; break;
	case 1: W.k_open_faults = 1; break;
	case 2: W.k_pid_faults = 1; break;
	case 3: W.tmp_errno = te[mc_choose_free(4, "errno")]; break;
	case 4: W.daemon_fail = 1; break;
	}
	session("a", PW_A, "[1] OK;one\n");
	go();
	if (kind == 3 && at_ready)
		mc_fail("the server went into operation without a usable temporary directory:%s", what.p);
	if (kind == 4 && mode == 1 && at_ready)
		mc_fail("the server went into operation although daemon() failed:%s", what.p);
}

/* ---------------------------------------------------------- PID file */
static int pid_state, pid_sleeps, pid_when;
static simfile *pid_old;
static void
pid_sleep(void)
{
	pid_sleeps++;
	if (pid_state == 4 && pid_sleeps == pid_when)
		sb_adds(&pid_old->data, "777");
	if (pid_state == 6 && pid_sleeps == pid_when) {
		pid_old->exists = 0;
		pid_old->lock = 0;
	}
	if (pid_state == 8 && pid_sleeps == pid_when)
		pid_old->lock = 0; /* killed */
}
static void
pid_resource(const char *w, const char *p)
{
	on_resource(w, p);
	/* It's locked before anything else happens. */
	if (strcmp(w, "access") && strcmp(p, exp_pid)) {
		simfile *f = sim_find_file(exp_pid);

		if (f == NULL || f->lock != 1)
			mc_fail("%s(%s) without having locked the PID file:%s", w, p, what.p);
		if (!strcmp(w, "notify") && !strcmp(p, "READY=1"))
			pid_content();
	}
}
static void
pid_exec(void)
{
	if (sim_find_file(exp_pid))
		mc_fail("the PID file is still there when restarting:%s", what.p);
}
static void
pid_end(void)
{
	simfile *f = sim_find_file(exp_pid);
	int refused = 0;

	if (pid_state >= 2 && pid_state != 6 && pid_state != 8 && pid_state != 9) {
		refused = 1;
		failed_start("another process has locked the PID file");
		if (W.err.n == 0)
			mc_fail("no message");
		if (f != pid_old || f->lock != 2 || f->data.n != (size_t)(pid_state == 3 || (pid_state == 4 && pid_sleeps < pid_when) ? 0 : pid_state == 7 ? 4 : 3))
			mc_fail("another process' PID file was changed:%s", what.p);
		if ((pid_state == 2 || (pid_state == 4 && pid_when < 15)) && !has(&W.err, "777"))
			mc_fail("the other process' ID wasn't mentioned: %s", W.err.p);
	} else if ((pid_state == 6 || pid_state == 8) && !W.terminating) {
		failed_start("another process had locked the PID file");
		return;
	} else
		good_end();
	if (!refused && f)
		mc_fail("the PID file was left behind:%s", what.p);
}
extern simfile *sim_create_file(const char *, int);
static void
sc_pid(void *arg_)
{
	/* absent, stale, locked with PID, empty, filled later, garbage, disappears, with newline, lock released, stale and long */
	int st = mc_choose_free(10, "PID file"), mode = mc_choose_free(3, "foreground/daemon/activated"), end = mc_choose_free(4, "end"), opt = mc_choose_free(2, "-P/pid_file");
	static const int when[] = { 1, 5, 19, 40 };

	(void)arg_;
	reset();
	pid_state = st;
	pid_sleeps = 0;
	pid_when = st == 4 || st == 6 || st == 8 ? when[mc_choose_free(4, "when")] : 0;
	stop_sig = end == 0 ? SIGTERM : end == 1 ? SIGINT : SIGHUP;
	W.exec_ok = 1;
	if (mode == 0) { foreground = 1; arg("-F"); }
	if (mode == 2) { activated = 1; W.sd_fd.nonblock = 1; }
	arg("-c%s", srv_conf_path);
	set("command_file = \"" SIM_FIFO "\"\ntemp_directory = \"" SIM_TMP "\"");
	exp_pid = PID1;
	if (opt) arg("-P" PID1); else set("pid_file = \"" PID1 "\"");
	users();
	standard();
	sim_on_resource = pid_resource;
	sim_on_sleep = pid_sleep;
	sim_on_exec = pid_exec;
	srv_final = pid_end;
	pid_old = NULL;
	if (st) {
		static const char *const content[] = { "", "999", "777", "", "", "abc", "777", "777\n", "777", "12345678901234567890" };

		pid_old = sim_create_file(PID1, 0600);
		sb_adds(&pid_old->data, content[st]);
		pid_old->lock = st == 1 || st == 9 ? 0 : 2;
	}
	if (end == 3) {
		W.exec_ok = 0;
		srv_final = NULL;
	}
	session("a", PW_A, "[1] OK;one\n");
	if (end == 3) {
		/* execvp() fails */
		if (st >= 2 && st != 9) { srv_final = pid_end; stop_sig = SIGTERM; }
		else srv_final = fail_end, at_ready = 1, faults_at_ready = 0, W.n_faults = 1;
	}
	go();
	if (end == 3 && (st < 2 || st == 9)) {
		if (W.exit_code == 0)
			mc_fail("exit status 0 although the server couldn't be restarted");
		if (sim_find_file(exp_pid))
			mc_fail("the PID file was left behind:%s", what.p);
	}
}

/* ----------------------------------------------------------- systemd */
static int sysd_refuse;
static void
sysd_up(void)
{
	up();
	if (ready != 1)
		mc_fail("READY=1 was sent %d times:%s", ready, what.p);
	if (activated == 1) {
		if (W.nbinds || W.nlistens)
			mc_fail("bound to %s although socket activated:%s", W.bound, what.p);
		if (W.sd_closed)
			mc_fail("the socket passed by systemd was closed:%s", what.p);
	} else if (W.nlistens != 1 || strcmp(W.bound, exp_bound))
		mc_fail("bound to %s, not to %s:%s", W.bound, exp_bound, what.p);
}
static void
sysd_resource(const char *w, const char *p)
{
	on_resource(w, p);
	if (!strcmp(w, "notify") && !strcmp(p, "READY=1")) {
		if (W.listen_fd < 0)
			mc_fail("READY=1 was sent before the server was listening:%s", what.p);
		if (exp_pid)
			pid_content();
		if (!foreground && !activated && !W.daemonized)
			mc_fail("READY=1 was sent before the server went into the background:%s", what.p);
	}
}
static void
sysd_end(void)
{
	if (sysd_refuse) {
		if (W.exited != 1 || W.exit_code == 0 || W.err.n == 0 || n_listen_open || ready || W.terminating)
			mc_fail("exit status %d, %d resources opened although the sockets from systemd are unusable: %s", W.exit_code, n_listen_open, W.log.n ? W.log.p : "");
		mc_nontrivial(9);
		return;
	}
	paths_end();
	if (activated == 1 && stop_sig == SIGHUP && W.exec_cloexec3)
		mc_fail("the socket isn't passed on:%s", what.p);
}
static void
sc_systemd(void *arg_)
{
	static const int fds[] = { 1, 0, 2, -1 };
	int n = mc_choose_free(4, "sockets"), nb = mc_choose_free(2, "nonblocking/blocking"), F = mc_choose_free(2, "-F"), b = mc_choose_free(3, "-b/listen"),
	    s = mc_choose_free(4, "-s/-S"), pid = mc_choose_free(2, "-P"), end = mc_choose_free(3, "signal");

	(void)arg_;
	reset();
	activated = fds[n];
	sysd_refuse = activated < 0 || activated > 1;
	if (activated < 0) W.sd_fds = -1;
	W.sd_fd.nonblock = !nb;
	stop_sig = end == 0 ? SIGTERM : end == 1 ? SIGINT : SIGHUP;
	W.exec_ok = 1;
	foreground = F;
	if (F) arg("-F");
	arg("-c"); arg("%s", srv_conf_path);
	strcpy(exp_bound, "0.0.0.0:5668");
	if (b == 1) { arg("-b127.0.0.4:77"); strcpy(exp_bound, "127.0.0.4:77"); }
	if (b == 2) { set("listen = \"127.0.0.3\""); strcpy(exp_bound, "127.0.0.3:5668"); }
	if (s == 1 || s == 3) arg("-s");
	if (s == 2 || (s == 3 && (F || activated))) arg("-S");
	if (pid) { arg("-P" PID1); exp_pid = PID1; }
	set("command_file = \"" SIM_FIFO "\"\ntemp_directory = \"" SIM_TMP "\"");
	users();
	standard();
	if (s == 2 && !F && activated == 0) {
		/* documented: not without -F */
		srv_final = bad_end;
	} else {
		sim_on_resource = sysd_resource;
		srv_on_quiescent = sysd_up;
		srv_final = sysd_end;
	}
	session("a", PW_A, "[1] OK;one\n");
	session("b", PW_B, "[1] PROCESS_HOST_CHECK_RESULT;h1;0;x\n");
	go();
}

/* ---------------------------------------------------------- watchdog */
static double wd_period;
static void
wd_end(void)
{
	char *l, *n;
	double last = -1;
	int i = 0, k = 0;

	good_end();
	for (l = W.notify.p; l && *l; l = n, i++) {
		double t = W.notify_t[i];

		n = strchr(l, '\n') + 1;
		if (i >= 3000)
			mc_fail("harness: too many notifications");
		if (!strncmp(l, "WATCHDOG=1", 10)) {
			k++;
			if (wd_period <= 0)
				mc_fail("keep-alive message though no watchdog is configured:%s", what.p);
			if (last < 0)
				mc_fail("keep-alive message before the server was ready");
		} else if (strncmp(l, "READY=1", 7))
			continue;
		if (wd_period > 0 && last >= 0 && t - last > wd_period)
			mc_fail("%.2f s without a keep-alive message, the watchdog's limit is %.2f s:%s", t - last, wd_period, what.p);
		last = t;
	}
	if (wd_period > 0 && (k == 0 || sim_now() - last > wd_period))
		mc_fail("%d keep-alive messages, none since %.2f s, the limit is %.2f s:%s", k, sim_now() - last, wd_period, what.p);
}
static void
sc_watchdog(void *arg_)
{
	static const struct { const char *v; double p; } wd[] = { { NULL, 0 }, { "0", 0 }, { "-5", 0 }, { "abc", 0 }, { "", 0 }, { "400000", 0.4 }, { "1500000", 1.5 }, { "2000000", 2 }, { "7500000", 7.5 }, { "30000000", 30 }, { "90000000", 90 }, { "3600000000", 3600 }, { "5000000000", 5000 } };
	int k = mc_choose_free(13, "WATCHDOG_USEC"), traffic = mc_choose_free(5, "traffic"), mode = mc_choose_free(2, "foreground/activated"), sig = mc_choose_free(2, "signal");
	client *c;
	char *big;
	size_t n;

	(void)arg_;
	reset();
	if (wd[k].v)
		setenv("WATCHDOG_USEC", wd[k].v, 1);
	wd_period = wd[k].p;
	W.k_max_advances = 4000;
	W.k_max_steps = 30000;
	stop_sig = sig ? SIGHUP : SIGTERM;
	W.exec_ok = 1;
	if (mode == 0) { foreground = 1; arg("-F"); } else { activated = 1; W.sd_fd.nonblock = 1; }
	arg("-c%s", srv_conf_path);
	set("command_file = \"" SIM_FIFO "\"\ntemp_directory = \"" SIM_TMP "\"\ntimeout = 40.0");
	users();
	standard();
	srv_final = wd_end;
	srv_settle = 3.1 * wd_period;
	if (srv_settle < 25) srv_settle = wd_period > 0 && wd_period < 1 ? 5 : 25;
	switch (traffic) {
	case 0:
		session("a", PW_A, "[1] OK;one\n");
		break;
	case 1: /* stalls until it times out */
		c = cl_new("a", PW_A);
		cl_conn(c);
		cl_moin(c);
		cl_sends(c, 1, "PUSH 500\r\n");
		cl_sends(c, 2, "[1] ");
		c->aborted = 1;
		c->no_transcript = 1;
		srv_expect_timeouts = 1;
		break;
	case 2: /* Nagios is away */
		W.fifo_reader = 0;
		srv_no_delivery = 1;
		session("a", PW_A, "[1] OK;one\n");
		break;
	case 3: /* spool file */
		c = cl_new("a", PW_A);
		cl_conn(c);
		cl_moin(c);
		big = mkcmd("[1] OK;big", 'x', 9000, &n);
		cl_push(c, big, n);
		free(big);
		cl_quit(c);
		cl_close(c);
		break;
	case 4: /* never finishes the handshake */
		c = cl_new("a", PW_A);
		cl_step(c, ST_CONN, 0);
		c->st[0].arg = 1;
		c->aborted = 1;
		c->no_transcript = 1;
		srv_expect_timeouts = 1;
		break;
	}
	go();
	unsetenv("WATCHDOG_USEC");
}

/* ----------------------------------------------------------- logging */
typedef struct { int prio; const char *text; size_t n; } line;
static size_t err_ready, sys_ready;
static int lg_target, lg_level, lg_fmt;
enum { T_ERR, T_SYS, T_BOTH, T_SD };
static void
log_resource(const char *w, const char *p)
{
	on_resource(w, p);
	if (!strcmp(w, "notify") && !strcmp(p, "READY=1")) {
		err_ready = W.err.n;
		sys_ready = W.sys.n;
	}
}
static const char *const TAG[] = { "FATAL", "ERROR", "WARNING", "NOTICE", "INFO", "DEBUG" };
/* Splits a sink into lines; embedded newlines don't occur here. */
static int
lines_of(const sbuf *b, size_t from, line *o, int max, int sink)
{
	const char *p = b->n ? b->p + from : "", *e = b->n ? b->p + b->n : p;
	int n = 0;

	while (p < e && n < max) {
		const char *nl = memchr(p, '\n', (size_t)(e - p));
		int i, prio = -1;
		char tag[60];

		if (nl == NULL)
			mc_fail("unterminated log message: %.200s", p);
		if (sink != T_ERR) {
			char *q;

			if (*p != '<')
				mc_fail("log message without priority: %.100s", p);
			prio = (int)strtol(p + 1, &q, 10) - 2;
			if (*q != '>' || prio < 0 || prio > 5)
				mc_fail("log message with strange priority: %.100s", p);
			p = q + 1;
		}
		if (sink == T_ERR) {
			if (activated && *p == '<' && p < b->p + err_ready) { /* while starting */
				p = nl + 1;
				continue;
			}
			if (strncmp(p, "nsca-ng: ", 9))
				mc_fail("message doesn't start with the program's name: %.100s", p);
			p += 9;
		}
		if (sink != T_SD) {
			for (i = 0; i < 6; i++) {
				snprintf(tag, sizeof(tag), "[%s] ", TAG[i]);
				if (!strncmp(p, tag, strlen(tag)))
					break;
			}
			if (i == 6)
				mc_fail("message without a valid tag: %.100s", p);
			if (prio >= 0 && prio != i)
				mc_fail("message tagged %s with priority %d: %.100s", TAG[i], prio + 2, p);
			prio = i;
			p += strlen(tag);
		} else if (!strncmp(p, "nsca-ng: ", 9) || *p == '[' )
			mc_fail("tagged message for systemd: %.100s", p);
		o[n].prio = prio;
		o[n].text = p;
		o[n++].n = (size_t)(nl - p);
		p = nl + 1;
	}
	return n;
}
static line L[3000], M[3000];
static int nL;
static int
count(const char *needle)
{
	int i, c = 0;

	for (i = 0; i < nL; i++)
		if (memmem(L[i].text, L[i].n, needle, strlen(needle)))
			c++;
	return c;
}
static void
expect(int level, int times, const char *needle)
{
	int c = count(needle);

	if (lg_level >= level && c != times)
		mc_fail("log level %d: \"%s\" was logged %d times, not %d times:%s; log: %s", lg_level, needle, c, times, what.p, W.log.n ? W.log.p : "");
	if (lg_level < level && c != 0)
		mc_fail("log level %d: \"%s\" was logged:%s", lg_level, needle, what.p);
}
static void
exact(int level, const char *from, const char *to)
{
	int i;

	for (i = 0; i < nL; i++)
		if (L[i].n >= strlen(from) + strlen(to) && !memcmp(L[i].text, from, strlen(from)) && L[i].prio == level
		    && !memcmp(L[i].text + L[i].n - strlen(to), to, strlen(to)))
			return;
	if (lg_level >= level)
		mc_fail("log level %d: no message \"%s[...]%s\" of level %s:%s; %s", lg_level, from, to, TAG[level], what.p, W.log.n ? W.log.p : "");
}
/* collects the messages of the configured target since the start of operation */
static void
collect(void)
{
	int i, n;

	switch (lg_target) {
	case T_ERR:
		if (W.sys.n)
			mc_fail("message sent to syslog:%s; %.200s", what.p, W.sys.p);
		nL = lines_of(&W.err, 0, L, 3000, T_ERR);
		break;
	case T_SD:
		if (W.sys.n)
			mc_fail("message sent to syslog:%s; %.200s", what.p, W.sys.p);
		nL = lines_of(&W.err, 0, L, 3000, T_SD);
		break;
	case T_SYS:
		nL = lines_of(&W.sys, 0, L, 3000, T_SYS);
		if (W.err.n > err_ready || has(&W.err, "starting up"))
			mc_fail("message written to standard error:%s; %.200s", what.p, W.err.p);
		break;
	case T_BOTH:
		nL = lines_of(&W.sys, 0, L, 3000, T_SYS);
		n = lines_of(&W.err, 0, M, 3000, T_ERR);
		/* while starting, messages may be written to standard error only */
		if (n < nL || (n > nL && M[n - nL - 1].text >= W.err.p + err_ready))
			mc_fail("%d messages on standard error, %d sent to syslog:%s", n, nL, what.p);
		for (i = 0; i < nL; i++) {
			line *m = &M[n - nL + i];

			if (L[i].prio != m->prio || L[i].n != m->n || memcmp(L[i].text, m->text, L[i].n))
				mc_fail("different messages on standard error (%.*s) and sent to syslog (%.*s)", (int)m->n, m->text, (int)L[i].n, L[i].text);
		}
		break;
	}
	for (i = 0; i < nL; i++)
		if (L[i].prio > lg_level)
			mc_fail("log level %d: message of level %s:%s; %.*s", lg_level, TAG[L[i].prio], what.p, (int)L[i].n, L[i].text);
}
static int
count_level(int l)
{
	int i, c = 0;

	for (i = 0; i < nL; i++)
		c += L[i].prio == l;
	return c;
}
static void
log_end(void)
{
	good_end();
	collect();
	expect(3, 1, "starting up");
	expect(3, 1, stop_sig == SIGHUP ? "Restarting" : "Exiting");
	expect(3, 1, stop_sig == SIGHUP ? "Received SIGHUP" : stop_sig == SIGINT ? "Received SIGINT" : "Received SIGTERM");
	exact(3, "Queuing data from a@10.0.0.1", ": [1] OK;one");
	expect(3, 1, "Queuing data from ");
	exact(2, "Refusing data from a@10.0.0.1", ": [1] NOT OK");
	expect(2, 1, "Refusing data from ");
	exact(1, "b@10.0.0.2", " said: BAIL out of here");
	expect(1, 1, " said: ");
	exact(4, "a@10.0.0.1", " C: MOIN 1 sess0");
	exact(4, "a@10.0.0.1", " S: MOIN 1");
	exact(4, "a@10.0.0.1", " C: PUSH 11");
	exact(4, "a@10.0.0.1", " C: [1] OK;one");
	exact(4, "a@10.0.0.1", " C: PUSH 11");
	exact(4, "a@10.0.0.1", " C: [1] NOT OK");
	exact(4, "a@10.0.0.1", " S: FAIL You're not authorized");
	exact(4, "a@10.0.0.1", " C: QUIT");
	exact(4, "a@10.0.0.1", " S: OKAY");
	exact(4, "b@10.0.0.2", " C: MOIN 1 sess1");
	exact(4, "b@10.0.0.2", " S: MOIN 1");
	exact(4, "b@10.0.0.2", " C: BAIL out of here");
	expect(4, 8, " C: ");
	expect(4, 7, " S: ");
	if (lg_level >= 5 && count_level(5) == 0)
		mc_fail("no debug output at log level 5:%s", what.p);
	if (lg_level >= 2 && count("unknown") != 1)
		mc_fail("the unknown client isn't mentioned:%s", what.p);
	mc_nontrivial(mc_hash((uint64_t)lg_target, W.log.n ? W.log.p : "", W.log.n));
}
/* how the server is started, by number */
static void
log_args(int t)
{
	static const struct { int fg, act; const char *o1, *o2; int target; } T[] = {
		{ 1, 0, NULL, NULL, T_ERR }, { 1, 0, "-s", NULL, T_SYS }, { 1, 0, "-S", NULL, T_BOTH }, { 0, 0, NULL, NULL, T_SYS }, { 0, 1, NULL, NULL, T_SD },
		{ 0, 1, "-s", NULL, T_SYS }, { 0, 1, "-S", NULL, T_BOTH }, { 0, 0, "-s", NULL, T_SYS }, { 1, 0, "-s", "-S", T_BOTH }, { 1, 0, "-S", "-s", T_BOTH }, { 1, 1, NULL, NULL, T_SD } };

	foreground = T[t].fg;
	if (foreground) arg("-F");
	activated = T[t].act;
	W.sd_fd.nonblock = 1;
	if (T[t].o1) arg("%s", T[t].o1);
	if (T[t].o2) arg("%s", T[t].o2);
	lg_target = T[t].target;
	arg("-c%s", srv_conf_path);
	set("command_file = \"" SIM_FIFO "\"\ntemp_directory = \"" SIM_TMP "\"");
}
static void
sc_log(void *arg_)
{
	int t = mc_choose_free(11, "target"), cl = mc_choose_free(7, "log_level"), ol = mc_choose_free(7, "-l"), end = mc_choose_free(3, "signal");
	client *c;

	(void)arg_;
	reset();
	stop_sig = end == 0 ? SIGTERM : end == 1 ? SIGINT : SIGHUP;
	W.exec_ok = 1;
	lg_level = ol ? ol - 1 : cl ? cl - 1 : 3;
	log_args(t);
	if (cl) set("log_level = %d", cl - 1);
	if (ol) { arg("-l"); arg("%d", ol - 1); }
	if (activated) { arg("-b"); arg("127.0.0.1:5668"); }
	users();
	standard();
	sim_on_resource = log_resource;
	srv_final = log_end;
	err_ready = sys_ready = 0;
	c = cl_new("a", PW_A);
	cl_conn(c);
	cl_moin(c);
	cl_pushs(c, "[1] OK;one\n");
	cl_pushs(c, "[1] NOT OK\n");
	cl_quit(c);
	cl_close(c);
	c = cl_new("b", PW_B);
	cl_conn(c);
	cl_moin(c);
	cl_sends(c, 1, "BAIL out of here\r\n");
	cl_close(c);
	c->lines_planned = 1;
	c = cl_new("nobody", "wrong-secret");
	cl_conn(c);
	c->no_transcript = 1;
	go();
}

static const char *lt_cmd;
static char lt_id[400];
static char *lt_long;
static size_t lt_n;
static void
shown(int level, const char *from, const char *mark, const char *text, size_t n)
{
	int i;

	for (i = 0; i < nL; i++) {
		const char *q = memmem(L[i].text, L[i].n, mark, strlen(mark));
		size_t m;

		if (L[i].prio != level || q == NULL || L[i].n < strlen(from) || memcmp(L[i].text, from, strlen(from)))
			continue;
		q += strlen(mark);
		m = L[i].n - (size_t)(q - L[i].text);
		if (m == n && !memcmp(q, text, n))
			break;
		if (n > 600 && L[i].n >= 700 && m < n + 6 && !memcmp(q + m - 6, " [...]", 6) && !memcmp(q, text, m - 6))
			break;
	}
	if (i == nL)
		mc_fail("not logged at level %s: %s[...]%s%.300s (%zu octets):%s; log: %s", TAG[level], from, mark, text, n, what.p, W.log.n ? W.log.p : "");
}
static void
text_end(void)
{
	good_end();
	collect();
	shown(4, "a@10.0.0.1", " C: ", lt_long, lt_n - 1);
	shown(3, "Queuing data from a@10.0.0.1", "): ", lt_long, lt_n - 1);
	shown(4, "a@10.0.0.1", " C: MOIN 1 ", lt_id, strlen(lt_id));
	shown(4, "a@10.0.0.1", " C: BAIL ", lt_cmd, strlen(lt_cmd));
	shown(1, "a@10.0.0.1", " said: BAIL ", lt_cmd, strlen(lt_cmd));
	mc_nontrivial(mc_hash((uint64_t)lg_target, W.log.n ? W.log.p : "", W.log.n));
}
static void
sc_log_text(void *arg_)
{
	static const char *const tx[] = { "%s%s%s%n", "100%%", "%m", "%", "%%m", "%1$s %*d", "caf\xc3\xa9 \x01\x7f\xff", "%.9999d", "%m%m%m%m%m%m%m%m%m%m%m%m%m%m%m%m", "[WARNING] x: y", "\t\x1b[31m", " [...]" };
	static const int pad[] = { 0, 710, 715, 720, 721, 722, 723, 724, 725, 726, 727, 728, 729, 730, 731, 732, 733, 734, 735, 736, 737, 738, 739, 740, 741, 742, 743, 744,
		745, 746, 747, 748, 749, 750, 751, 752, 753, 754, 755, 756, 757, 758, 759, 760, 761, 762, 763, 764, 765, 766, 767, 768, 769, 770, 771, 800, 1500, 1530, 5000 };
	int k = mc_choose_free(12, "text"), p = mc_choose_free(59, "length"), t = mc_choose_free(4, "target");
	client *c;
	char b[400], *q;

	(void)arg_;
	reset();
	lg_level = 5;
	log_args(t == 0 ? 0 : t == 1 ? 2 : t == 2 ? 3 : 4);
	set("log_level = 5");
	users();
	standard();
	sim_on_resource = log_resource;
	srv_final = text_end;
	err_ready = sys_ready = 0;
	lt_cmd = tx[k];
	snprintf(b, sizeof(b), "[1] OK;%s", tx[k]);
	free(lt_long);
	lt_long = mkcmd(b, 'x', (size_t)pad[p], &lt_n);
	c = cl_new("a", PW_A);
	cl_conn(c);
	snprintf(lt_id, sizeof(lt_id), "%s", tx[k]);
	for (q = lt_id; *q; q++)
		if (isspace((unsigned char)*q))
			*q = '_';
	cl_sends(c, 0, "MOIN 1 %s\r\n", lt_id);
	c->lines_planned++;
	cl_push(c, lt_long, lt_n);
	cl_sends(c, c->lines_planned, "BAIL %s\r\n", tx[k]);
	cl_close(c);
	go();
}
