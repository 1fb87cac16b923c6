/* C16: options and settings; C15: privileges */
#include <confuse.h>

static int opened_other;
static char other_path[300];
static void
on_resource(const char *w, const char *p)
{
	if (strcmp(w, "access"))
		n_listen_open++;
	if (!strcmp(w, "open") && strcmp(p, exp_fifo) && (exp_pid == NULL || strcmp(p, exp_pid)))
		mc_fail("%s was opened:%s", p, what.p);
	if (!strcmp(w, "mkstemp") && (strncmp(p, exp_tmp, strlen(exp_tmp)) || p[strlen(exp_tmp)] != '/'))
		mc_fail("temporary file %s:%s", p, what.p);
	if (!strcmp(w, "notify") && !strcmp(p, "READY=1"))
		ready++;
}
static void
on_daemon(void)
{
	daemon_calls++;
	daemon_listening = W.listen_fd >= 0;
}
static void
pid_content(void)
{
	simfile *f;
	char pid[30];

	if (exp_pid == NULL)
		return;
	f = sim_find_file(exp_pid);
	snprintf(pid, sizeof(pid), "%d", W.pid);
	if (f == NULL)
		mc_fail("no PID file %s:%s", exp_pid, what.p);
	if (f->data.n == 0 || strtol(f->data.p, NULL, 10) != W.pid || strspn(f->data.p, "0123456789\n") != f->data.n)
		mc_fail("the PID file contains %.*s, the server's PID is %s:%s", (int)f->data.n, f->data.n ? f->data.p : "", pid, what.p);
	if (f->lock != 1)
		mc_fail("the PID file isn't locked:%s", what.p);
	if (f->mode & 022)
		mc_fail("the PID file is writable for others (mode %o)", f->mode);
}
static void
up(void)
{
	if (!foreground && !activated && W.daemonized != 1)
		mc_fail("the server didn't go into the background:%s", what.p);
	if ((foreground || activated) && W.daemonized)
		mc_fail("the server went into the background:%s", what.p);
	if (W.daemonized && !daemon_listening)
		mc_fail("the server went into the background before it was listening:%s", what.p);
	pid_content();
}
static void
paths_end(void)
{
	good_end();
	if (exp_pid && sim_find_file(exp_pid))
		mc_fail("the PID file was left behind:%s", what.p);
	if (NCMD > 0 && W.nfw == 0)
		mc_fail("nothing was written to %s:%s", exp_fifo, what.p);
}
static void
standard(void)
{
	sim_on_resource = on_resource;
	sim_on_daemon = on_daemon;
	srv_on_quiescent = up;
	srv_final = paths_end;
}

/* address to bind to */
static char exp_bound[100];
static void
listen_end(void)
{
	paths_end();
	if (strcmp(W.bound, exp_bound) || W.nbinds != 1 || W.nlistens != 1)
		mc_fail("bound to %s (%d times), not to %s:%s", W.bound, W.nbinds, exp_bound, what.p);
	if (W.reuseaddr < 1)
		mc_fail("SO_REUSEADDR isn't set: restarting may fail");
}
static void
exp_listen(const char *v)
{
	const char *c = strchr(v, ':');
	int n = c ? (int)(c - v) : (int)strlen(v);

	snprintf(exp_bound, sizeof(exp_bound), "%.*s:%d", n == 1 && *v == '*' ? 7 : n, n == 1 && *v == '*' ? "0.0.0.0" : v, c ? atoi(c + 1) : 5668);
}
static void
sc_listen(void *arg_)
{
	static const char *const v[] = { NULL, "127.0.0.1", "127.0.0.2:7000", "*", "*:7001", "192.0.2.44:65535" };
	int b = mc_choose_free(6, "-b"), s = mc_choose_free(6, "listen"), twice = b ? mc_choose_free(2, "-b given twice") : 0;
	int first = mc_choose_free(2, "daemon/foreground");

	(void)arg_;
	reset();
	arg("-c"); arg("%s", srv_conf_path);
	if (twice) { arg("-b"); arg("127.0.0.99:99"); }
	if (b) { arg("-b"); arg("%s", v[b]); }
	if ((foreground = first)) arg("-F");
	set("command_file = \"" SIM_FIFO "\"\ntemp_directory = \"" SIM_TMP "\"");
	if (s) set("listen = \"%s\"", v[s]);
	exp_listen(b ? v[b] : s ? v[s] : "*");
	users();
	standard();
	srv_final = listen_end;
	session("a", PW_A, "[1] OK;one\n");
	go();
}

/* -C, -P, pid_file, command_file, temp_directory, defaults */
static void
sc_paths(void *arg_)
{
	int C = mc_choose_free(3, "-C"), cf = mc_choose_free(2, "command_file"), P = mc_choose_free(3, "-P"),
	    pf = mc_choose_free(2, "pid_file"), td = mc_choose_free(2, "temp_directory"), c = mc_choose_free(3, "-c"), sig = mc_choose_free(2, "signal");
	client *x;
	char *big;
	size_t n;

	(void)arg_;
	reset();
	stop_sig = sig ? SIGHUP : SIGINT;
	W.exec_ok = 1;
	if (mc_choose_free(2, "daemon/foreground")) { foreground = 1; arg("-F"); }
	if (c == 1) { arg("-c"); arg("/sim/nonexistent.cfg"); }
	if (c == 2) { arg("-c%s", srv_conf_path); } else { arg("-c"); arg("%s", srv_conf_path); }
	if (C == 2) { arg("-C"); arg("/sim/wrong.cmd"); }
	if (C) { arg("-C"); arg("/opt/x/right.cmd"); }
	if (P == 2) { arg("-P"); arg("/sim/wrong.pid"); }
	if (P) { arg("-P"); arg("/var/run/right.pid"); }
	if (cf) set("command_file = \"/sim/conf.cmd\"");
	if (pf) set("pid_file = \"/sim/conf.pid\"");
	if (td) set("temp_directory = \"/dev/shm/x\"");
	exp_fifo = C ? "/opt/x/right.cmd" : cf ? "/sim/conf.cmd" : "/var/nagios/rw/nagios.cmd";
	exp_pid = P ? "/var/run/right.pid" : pf ? "/sim/conf.pid" : NULL;
	exp_tmp = td ? "/dev/shm/x" : "/tmp";
	users();
	standard();
	x = cl_new("a", PW_A);
	cl_conn(x);
	cl_moin(x);
	cl_pushs(x, "[1] OK;one\n");
	big = mkcmd("[1] OK;big", 'x', 5000, &n);
	cl_push(x, big, n);
	free(big);
	cl_quit(x);
	cl_close(x);
	go();
}

/* ways to write settings */
static void
sc_limits(void *arg_)
{
	static const char *const form[] = { "max_command_size = %ld", "max_command_size=%ld", "  max_command_size\t=\n%ld", "max_command_size = \"%ld\"",
		"max_command_size = '%ld'", "max_command_size = ${VERIF_SIZE}", "max_command_size = \"${VERIF_SIZE}\"", "max_command_size = ${VERIF_NONE:-%ld}",
		"max_command_size = ${VERIF_SIZE:-7}", "max_command_size = %ld # 99", "max_command_size = 5\nmax_command_size = %ld", "#max_command_size = 5\nmax_command_size = %ld",
		"max_command_size = 0x%lx", "include(\"%s\")", "include('%s')" };
	static const long sizes[] = { -1, 20, 64, 40000 };
	int f = mc_choose_free(15, "form"), k = mc_choose_free(4, "limit"), at = mc_choose_free(2, "before/after the authorizations"), over = mc_choose_free(2, "size");
	long lim = k ? sizes[k] : 16384;
	char b[400], inc[300], *p;
	size_t n;
	client *c;

	(void)arg_;
	reset();
	snprintf(b, sizeof(b), "%ld", lim);
	setenv("VERIF_SIZE", b, 1);
	unsetenv("VERIF_NONE");
	foreground = 1;
	arg("-F"); arg("-c"); arg("%s", srv_conf_path);
	set("command_file = \"" SIM_FIFO "\"\ntemp_directory = \"" SIM_TMP "\"");
	if (at) users();
	if (k) {
		if (f >= 13) {
			FILE *o;

			snprintf(inc, sizeof(inc), "%s/mc-%d-inc", confdir(), mc_worker() < 0 ? 0 : mc_worker());
			o = fopen(inc, "w");
			fprintf(o, "max_command_size = %ld", lim);
			fclose(o);
			snprintf(b, sizeof(b), form[f], inc);
		} else
			snprintf(b, sizeof(b), form[f], lim);
		set("%s", b);
	}
	if (!at) users();
	SCONF.maxcmd = lim;
	standard();
	c = cl_new("a", PW_A);
	cl_conn(c);
	cl_moin(c);
	p = mkcmd("[1] OK;", 'x', (size_t)lim + (size_t)over, &n);
	if (over) {
		cl_sends(c, c->lines_planned, "PUSH %zu\r\n", n);
		c->lines_planned++;
	} else
		cl_push(c, p, n);
	free(p);
	cl_quit(c);
	cl_close(c);
	go();
}

/* how long a session may remain silent */
static double ts_lim;
static void
ts_watch(void)
{
	client *c = &CL[0];

	if (!c->c->accepted_ever || c->pos < c->nst)
		return;
	if (c->c->local_closed && (ts_lim <= 0 || sim_now() - c->t_last < ts_lim - 0.05))
		mc_fail("silent client cut off after %.2f s, the timeout is %.2f s (0: none):%s", sim_now() - c->t_last, ts_lim, what.p);
	if (ts_lim > 0 && !c->c->local_closed && sim_now() - c->t_last > 2 * ts_lim + 2)
		mc_fail("client has been silent for %.2f s, the timeout is %.2f s:%s", sim_now() - c->t_last, ts_lim, what.p);
	if (ts_lim > 0 && !c->c->local_closed && c->c->out.n && memmem(c->c->out.p, c->c->out.n, "BAIL ", 5) == NULL
	    && sim_now() - c->t_last > ts_lim * 1.1 + 1)
		mc_fail("client has been silent for %.2f s and wasn't told, the timeout is %.2f s:%s", sim_now() - c->t_last, ts_lim, what.p);
}
static void
sc_timeout_setting(void *arg_)
{
	static const struct { const char *s; double t; } v[] = { { NULL, 60 }, { "timeout = 15.0", 15 }, { "timeout = 0.0", 0 }, { "timeout = 0.5", 0.5 }, { "timeout=2.5", 2.5 },
		{ "timeout = '7.25'", 7.25 }, { "timeout = \"90.0\"", 90 }, { "timeout = ${VERIF_T}", 12.5 }, { "timeout = 5.0 # 3.0", 5 }, { "timeout = 30.0\ntimeout = 4.0", 4 },
		{ "#timeout = 3.0", 60 }, { "timeout = 1800.0", 1800 }, { "timeout = 120", 120 } };
	int k = mc_choose_free(sizeof(v) / sizeof(*v), "timeout"), at = mc_choose_free(2, "before/after the authorizations"), state = mc_choose_free(2, "silent after MOIN/PUSH");
	client *c;

	(void)arg_;
	reset();
	setenv("VERIF_T", "12.5", 1);
	foreground = 1;
	arg("-F"); arg("-c"); arg("%s", srv_conf_path);
	set("command_file = \"" SIM_FIFO "\"\ntemp_directory = \"" SIM_TMP "\"");
	if (at) users();
	if (v[k].s) set("%s", v[k].s);
	if (!at) users();
	SCONF.timeout = ts_lim = v[k].t;
	sb_addf(&what, " [%s]", v[k].s ? v[k].s : "default");
	standard();
	srv_expect_timeouts = 1;
	c = cl_new("a", PW_A);
	cl_conn(c);
	cl_moin(c);
	if (state)
		cl_sends(c, 1, "PUSH 500\r\n");
	c->stalled = 1;
	srv_more_step = ts_watch;
	W.k_max_advances = 700;
	W.k_max_steps = 8000;
	go();
	if (ts_lim > 0 && !c->c->local_closed)
		mc_fail("the silent client's connection was never released:%s", what.p);
}

/* how much is queued while Nagios is away */
static void
sc_queue_setting(void *arg_)
{
	static const struct { const char *s; long mb; } v[] = { { NULL, 1024 }, { "max_queue_size = 1", 1 }, { "max_queue_size=2", 2 }, { "max_queue_size = 0", 0 },
		{ "max_queue_size = \"1\"", 1 }, { "max_queue_size = 9\nmax_queue_size = 1", 1 }, { "max_queue_size = ${VERIF_Q}", 2 }, { "max_queue_size = 3000", 3000 } };
	int k = mc_choose_free(sizeof(v) / sizeof(*v), "max_queue_size"), n = mc_choose_free(2, "volume") ? 9 : 4, i;
	client *c;

	(void)arg_;
	reset();
	setenv("VERIF_Q", "2", 1);
	foreground = 1;
	arg("-F"); arg("-c"); arg("%s", srv_conf_path);
	set("command_file = \"" SIM_FIFO "\"\ntemp_directory = \"" SIM_TMP "\"\nmax_command_size = 400000\ntimeout = 0.0");
	if (v[k].s) set("%s", v[k].s);
	users();
	SCONF.timeout = 0;
	SCONF.maxcmd = 400000;
	sb_addf(&what, " [%s]", v[k].s ? v[k].s : "default");
	standard();
	W.fifo_reader = 0;
	c = cl_new("a", PW_A);
	cl_conn(c);
	cl_moin(c);
	for (i = 0; i < n; i++) {
		char h[20], *p;
		size_t l;

		snprintf(h, sizeof(h), "[%d] OK;q", i);
		p = mkcmd(h, (char)('a' + i), 300000, &l);
		cl_push(c, p, l);
		free(p);
	}
	cl_step(c, ST_NOP, c->lines_planned);
	c->st[c->nst - 1].at = 12;
	c->st[c->nst - 1].arg = 2;              /* Nagios starts */
	c->st[c->nst - 1].hard = 1;
	cl_step(c, ST_NOP, c->lines_planned);
	c->st[c->nst - 1].at = 35;
	cl_pushs(c, "[9] OK;probe\n");
	cl_quit(c);
	cl_close(c);
	srv_settle = 30;
	if (v[k].mb > 0 && v[k].mb < 3)
		srv_may_overflow = (size_t)v[k].mb * 1024 * 1024;
	go();
}

static void bad_end(void) { failed_start("the configuration is wrong"); if (n_listen_open) mc_fail("files or sockets were opened although the configuration is wrong:%s", what.p);
	if (W.err.n == 0) mc_fail("no message on standard error:%s", what.p); }
static void
sc_bad(void *arg_)
{
	static const char *const opts[][4] = { { "-x" }, { "stray" }, { "-b" }, { "-C" }, { "-c" }, { "-l" }, { "-P" }, { "-S" }, { "-S", "-s" },
		{ "-s", "-S" }, { "-c", "/sim/none.cfg" }, { "--version", "x" }, { "-F", "--", "x" }, { "--unknown" }, { "-F", "", }, { "-Fx" }, { "-s", "-l", "3", "-S" },
		{ "-b", "127.0.0.1", "127.0.0.2" }, { "-l", "6" }, { "-l", "-1" }, { "-l7" }, { "-l", "3", "-l", "55" } };
	static const char *const sets[] = { "nonsense = 1", "timeout = -1.0", "timeout = -0.5", "log_level = -1", "max_command_size = -1", "max_queue_size = -7",
		"max_command_size = abc", "timeout = abc", "timeout = -0.001", "max_command_size", "= 5", "authorize \"x\" {\n}", "authorize \"x\" {\n commands = \".*\"\n}",
		"commands = { \"a\", \"[\" }", "authorize \"x\" {\n password = \"y\"\n nonsense = 1\n}", "authorize \"x\" {\n password = \"y\"\n commands = \"(\"\n}",
		"authorize \"x\" {\n password = \"y\"\n hosts = \"[\"\n}", "authorize \"x\" {\n password = \"y\"\n services = \"a{2,1}\"\n}",
		"authorize \"x\" {\n password = \"y\"\n services = \"ok@(\"\n}", "authorize \"x\" {\n password = \"y\"\n services = { \"ok\", \"*\", \"(\" }\n}",
		"include(\"/nonexistent/mc\")", "include()", "include(\"a\", \"b\")", "include(\"%s\")", "commands = \"(\"", "hosts = \"(\"", "services = \"(\"",
		"authorize \"a\" {\n password = \"again\"\n}", "user = \"nosuchuser\"", "listen = \"nohost.invalid\"", "password = \"x", "listen", "include(\"/dev/null\")",
		"authorize {\n password = \"x\"\n}", "authorize \"x\" \"y\" {\n password = \"x\"\n}", "user = \"\"", "timeout = -3", "log_level = 6", "log_level = 42", "log_level = 2.5" };
	int kind = (int)(intptr_t)arg_, k = mc_choose_free(kind ? 40 : 22, "mistake"), i, fg = mc_choose_free(2, "foreground/daemon") == 0, at = mc_choose_free(2, "after/before the authorizations");

	reset();
	foreground = fg;
	if (kind == 0 && strcmp(opts[k][0], "-S") && strcmp(opts[k][0], "-s")) {
		if (fg) arg("-F");
	}
	arg("-c%s", srv_conf_path);
	set("command_file = \"" SIM_FIFO "\"\ntemp_directory = \"" SIM_TMP "\"");
	if (kind) {
		if (fg) arg("-F");
		if (!at) users();
		set(sets[k], srv_conf_path);
		if (at) users();
	} else {
		for (i = 0; i < 4 && opts[k][i]; i++)
			arg("%s", opts[k][i]);
		users();
	}
	/* these are discovered when they are needed */
	standard();
	srv_final = bad_end;
	if (kind && strstr(sets[k], "invalid"))
		sim_on_resource = NULL;
	go();
}
static void
info_end(void)
{
	if (W.exited != 1 || W.exit_code != 0 || W.out.n == 0 || W.err.n != 0)
		mc_fail("exit status %d, %zu octets on stdout, %zu on stderr:%s", W.exit_code, W.out.n, W.err.n, what.p);
	if (n_listen_open || W.daemonized)
		mc_fail("the server started:%s", what.p);
	mc_nontrivial(mc_hash(3, W.out.p, W.out.n));
}
static void
sc_info(void *arg_)
{
	static const char *const o[][3] = { { "-h" }, { "--help" }, { "-V" }, { "--version" }, { "-F", "-h" }, { "-F", "-V" }, { "-Fsh" }, { "-b", "x", "-V" } };
	int k = mc_choose_free(8, "option"), i;

	(void)arg_;
	reset();
	for (i = 0; i < 3 && o[k][i]; i++)
		arg("%s", o[k][i]);
	users();
	standard();
	srv_final = info_end;
	go();
	if (k == 2 || k == 3 || k == 5 || k == 7) {
		if (!has(&W.out, "1.6") && !has(&W.out, "nsca-ng"))
			mc_fail("no version information: %s", W.out.p);
	} else if (!has(&W.out, "Usage: nsca-ng"))
		mc_fail("no usage information: %s", W.out.p);
}

/* ------------------------------------------------------------- include */
static int rm_cb(const char *p, const struct stat *s, int t, struct FTW *f) { (void)s; (void)t; (void)f; remove(p); return 0; }
static char tree[300];
static void
put(const char *name, const char *fmt, ...)
{
	char p[700], *s;
	FILE *f;
	va_list ap;

	snprintf(p, sizeof(p), "%s/%s", tree, name);
	for (s = p + strlen(tree) + 1; (s = strchr(s, '/')); s++) {
		*s = '\0';
		mkdir(p, 0700);
		*s = '/';
	}
	if ((f = fopen(p, "w")) == NULL)
		mc_fail("harness: cannot create %s", p);
	va_start(ap, fmt);
	vfprintf(f, fmt, ap);
	va_end(ap);
	fclose(f);
}
static void
new_tree(void)
{
	snprintf(tree, sizeof(tree), "%s/mc-%d.d", confdir(), mc_worker() < 0 ? 0 : mc_worker());
	if (access(tree, F_OK) == 0)
		nftw(tree, rm_cb, 20, FTW_DEPTH | FTW_PHYS);
	mkdir(tree, 0700);
}
static void
intruder_end(void)
{
	good_end();
	if (CL[0].c->out.n)
		mc_fail("client %s was served, though its authorization isn't part of the configuration:%s", CL[0].id, what.p);
}
static void
member_end(void)
{
	good_end();
	if (W.nfw != 1)
		mc_fail("client %s wasn't served:%s", CL[0].id, what.p);
}
/* files of a tree: the identity is the file's name */
static const struct { const char *name; int in; } TREE[] = {
	{ "d/main.cfg", 1 }, { "d/x.conf", 1 }, { "d/y.txt", 0 }, { "d/.hidden.cfg", 1 }, { "d/z.cfg~", 0 }, { "d/cfg", 0 }, { "d/w.cfg.bak", 0 },
	{ "d/sub/n.cfg", 1 }, { "d/sub/deep/er/m.conf", 1 }, { "d/sub.cfg/s.cfg", 1 }, { "d/sub.cfg/t", 0 }, { "ext/l.txt", 0 }, { "ext/o.cfg", 0 },
	{ "d/link.cfg", 1 }, { "d/ld/p.cfg", 1 }, { "d/a.b.cfg", 1 }, { "d/noext", 0 }, { "d/v.cf", 0 }, { "d/u.config", 0 }, { "inc.txt", 2 }, { "inc2.txt", 2 } };
#define NTREE 21
static void
auth_file(const char *name)
{
	put(name, "authorize \"%s\" {\n password = \"" PW_A "\"\n commands = \"OK.*\"\n}\n", name);
}
static void
sc_include(void *arg_)
{
	int mode = mc_choose_free(4, "-c dir/-c file with include(dir)/nested/relative depth"), who = mc_choose_free(NTREE, "identity"), broken = mc_choose_free(4, "broken file"), i, in;
	char p[500], q[500];
	client *c;

	(void)arg_;
	reset();
	new_tree();
	for (i = 0; i < NTREE; i++)
		if (strcmp(TREE[i].name, "d/link.cfg") && strcmp(TREE[i].name, "d/ld/p.cfg"))
			auth_file(TREE[i].name);
	put("ext/t.txt", "authorize \"d/link.cfg\" {\n password = \"" PW_A "\"\n commands = \"OK.*\"\n}\n");
	put("ext2/p.cfg", "authorize \"d/ld/p.cfg\" {\n password = \"" PW_A "\"\n commands = \"OK.*\"\n}\n");
	snprintf(p, sizeof(p), "%s/d/link.cfg", tree); if (symlink("../ext/t.txt", p)) mc_fail("harness: symlink");
	snprintf(p, sizeof(p), "%s/d/.#lock.cfg", tree); if (symlink("me@host.42", p)) mc_fail("harness: symlink"); /* dangling */
	snprintf(p, sizeof(p), "%s/d/ld", tree); if (symlink("../ext2", p)) mc_fail("harness: symlink");
	put("d/glob.cfg", "command_file = \"" SIM_FIFO "\"\ntemp_directory = \"" SIM_TMP "\"\ninclude(\"%s/inc.txt\")\nlisten = \"127.0.0.7\"\n", tree);
	if (broken == 1) put("d/broken.txt", "no { sense");
	if (broken == 2) put("d/sub/broken.cfg", "no { sense");
	if (broken == 3) put("d/sub/broken.conf", "timeout = -2.0");
	foreground = 1;
	arg("-F");
	if (mode == 0) {
		arg("-c%s/d", tree);
		set("unused = 1");
	} else if (mode == 3) {
		arg("-c%s/d/", tree);
	} else {
		arg("-c%s", srv_conf_path);
		if (mode == 1)
			set("include(\"%s/d\")\ninclude('%s/inc2.txt')\ntimeout = 33.0", tree, tree);
		else {
			set("include('%s/first')\ntimeout = 33.0", tree);
			put("first", "include(\"%s/second\")\nlog_level = 2", tree);
			put("second", "\ninclude(\"%s/d\") include(\"%s/inc2.txt\")", tree, tree);
		}
	}
	strcpy(exp_bound, "127.0.0.7:5668");
	standard();
	in = TREE[who].in == 1 || (TREE[who].in == 2 && (!strcmp(TREE[who].name, "inc.txt") || mode == 1 || mode == 2));
	c = cl_new(TREE[who].name, PW_A);
	cl_conn(c);
	if (broken >= 2) {
		srv_final = bad_end;
	} else if (in) {
		SCONF.u[0] = (user){ .id = TREE[who].name, .pw = PW_A, .cmds = { "OK.*", NULL } };
		cl_moin(c);
		cl_pushs(c, "[1] OK;one\n");
		cl_quit(c);
		cl_close(c);
		srv_final = member_end;
	} else {
		cl_sends(c, 0, "MOIN 1 x\r\n");
		c->aborted = 1;
		c->no_transcript = 1;
		srv_final = intruder_end;
	}
	(void)q;
	go();
	if (broken < 2 && strcmp(W.bound, exp_bound))
		mc_fail("bound to %s, not to %s:%s", W.bound, exp_bound, what.p);
}
static void
sc_include_names(void *arg_)
{
	static const char *const nm[] = { "plain", "with space", "it's", "quo\"te", "back\\slash", "back\\", "${HOME}", "$x", "#hash", "par)en", "'); listen = '1", "a;b", "uml\xc3\xa4ut",
		"-dash", "new\nline", "star*", "\\'", "a\\\\b", "perc%sent", "brace{", "comma,", "=", "~tilde" };
	int k = mc_choose_free(23, "name"), dir = mc_choose_free(3, "file/directory/subdirectory");
	char p[500];
	client *c;

	(void)arg_;
	reset();
	new_tree();
	if (dir == 0)
		snprintf(p, sizeof(p), "d/%s.cfg", nm[k]);
	else if (dir == 1)
		snprintf(p, sizeof(p), "%s/a.cfg", nm[k]);
	else
		snprintf(p, sizeof(p), "d/%s/a.conf", nm[k]);
	put(p, "command_file = \"" SIM_FIFO "\"\ntemp_directory = \"" SIM_TMP "\"\nauthorize \"a\" {\n password = \"" PW_A "\"\n commands = \"OK.*\"\n}\n");
	foreground = 1;
	arg("-F");
	arg("-c%s/%s", tree, dir == 1 ? nm[k] : "d");
	SCONF.u[0] = (user){ .id = "a", .pw = PW_A, .cmds = { "OK.*", NULL } };
	standard();
	srv_final = member_end;
	c = session("a", PW_A, "[1] OK;one\n");
	(void)c;
	go();
}

/* ---------------------------------------------------- C15: privileges */
static const char *pr_user, *pr_root;
static int pr_uid, pr_possible;
static void
check_ids(const char *w, const char *p)
{
	int uid, gid, i, ok;

	if (pr_user) {
		uid = !strcmp(pr_user, "nagios") ? 500 : !strcmp(pr_user, "other") ? 501 : 0;
		gid = uid == 500 ? 600 : uid == 501 ? 602 : 0;
		if (W.uid != uid || W.euid != uid || W.suid != uid)
			mc_fail("%s(%s) with user IDs %d/%d/%d:%s", w, p, W.uid, W.euid, W.suid, what.p);
		if (W.gid != gid || W.egid != gid || W.sgid != gid)
			mc_fail("%s(%s) with group IDs %d/%d/%d:%s", w, p, W.gid, W.egid, W.sgid, what.p);
		for (i = 0; i < W.ngroups; i++)
			if (W.groups[i] != gid && W.groups[i] != gid + 1)
				mc_fail("%s(%s) with group %d:%s", w, p, W.groups[i], what.p);
		for (i = ok = 0; i < W.ngroups; i++)
			ok |= W.groups[i] == gid + 1;
		if (uid != 0 && pr_uid == 0 && !ok)
			mc_fail("%s(%s) without the user's other groups:%s", w, p, what.p);
	} else if (W.uid != pr_uid || W.euid != pr_uid)
		mc_fail("%s(%s) with user ID %d:%s", w, p, W.euid, what.p);
	if (pr_root && (strcmp(W.root, pr_root) || strncmp(W.cwd, pr_root, strlen(pr_root))) && !W.daemonized)
		mc_fail("%s(%s) outside the configured root directory (root %s, working directory %s):%s", w, p, W.root, W.cwd, what.p);
	if (pr_root && strcmp(W.root, pr_root))
		mc_fail("%s(%s) outside the configured root directory (root %s):%s", w, p, W.root, what.p);
}
static void
priv_resource(const char *w, const char *p)
{
	on_resource(w, p);
	check_ids(w, p);
	if (W.n_priv_faults)
		mc_fail("%s(%s) although giving up the privileges failed:%s", w, p, what.p);
	if (!pr_possible)
		mc_fail("%s(%s) although the privileges cannot be given up:%s", w, p, what.p);
}
static void
priv_end(void)
{
	if (W.n_priv_faults || !pr_possible) {
		failed_start("giving up the privileges failed");
		if (n_listen_open)
			mc_fail("files or sockets were opened although giving up the privileges failed:%s", what.p);
		if (W.err.n == 0)
			mc_fail("no message on standard error:%s", what.p);
		return;
	}
	if (pr_uid == 500 && pr_user && W.exited == 1 && W.exit_code != 0 && !W.terminating && n_listen_open == 0)
		return; /* is that user already; it may be refused */
	paths_end();
}
static void
sc_priv(void *arg_)
{
	static const char *const us[] = { NULL, "nagios", "other", "root", "nosuchuser" };
	static const int start[] = { 0, 500, 777 };
	int u = mc_choose_free(5, "user"), r = mc_choose_free(2, "chroot"), s = mc_choose_free(3, "started by"), mode = mc_choose_free(3, "foreground/daemon/activated");
	client *x;
	char *big;
	size_t n;

	(void)arg_;
	reset();
	W.k_priv_faults = 1;
	pr_user = us[u];
	pr_root = r ? "/sim/jail" : NULL;
	pr_uid = start[s];
	pr_possible = u != 4 && (pr_uid == 0 || (!r && (!u || (u == 1 && pr_uid == 500))));
	W.uid = W.euid = W.suid = pr_uid;
	W.gid = W.egid = W.sgid = pr_uid == 0 ? 0 : pr_uid == 500 ? 600 : 700;
	W.groups[0] = W.gid;
	W.groups[1] = pr_uid == 0 ? 4 : W.gid + 1;
	W.ngroups = 2;
	if (mode == 0) { foreground = 1; arg("-F"); }
	if (mode == 2) { activated = 1; W.sd_fd.nonblock = 1; }
	arg("-c%s", srv_conf_path);
	set("command_file = \"" SIM_FIFO "\"\ntemp_directory = \"" SIM_TMP "\"\npid_file = \"/sim/n.pid\"");
	exp_pid = "/sim/n.pid";
	if (us[u]) set("user = \"%s\"", us[u]);
	if (r) set("chroot = \"%s\"", pr_root);
	users();
	standard();
	sim_on_resource = priv_resource;
	srv_final = priv_end;
	x = cl_new("a", PW_A);
	cl_conn(x);
	cl_moin(x);
	big = mkcmd("[1] OK;big", 'x', 5000, &n);
	cl_push(x, big, n);
	free(big);
	cl_quit(x);
	cl_close(x);
	if (W.pm && u == 3 && pr_uid != 0)
		pr_possible = 0;
	go();
}
