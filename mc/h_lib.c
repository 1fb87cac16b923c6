/* Scenarios for the Perl (-DPERL) and Python (-DPYTHON) libraries. */
#define _GNU_SOURCE
#include "lib.h"
#include "rssl.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#define NEL(a) ((int)(sizeof(a) / sizeof((a)[0])))
#define A(n) ((void *)(intptr_t)(n))
#define ARG ((int)(intptr_t)arg)

static libarg args[16];
static int nargs;
static char store[16][70000];
static sbuf exp_;

static libarg *
L(const char *k, const char *v, ...)
{
	/* one more argument */
	args[nargs].k = k;
	if (v != NULL) {
		snprintf(store[nargs], sizeof(store[0]), "%s", v);
		v = store[nargs];
	}
	args[nargs++].v = v;
	args[nargs].k = NULL;
	return args;
}
static void fresh(void) { nargs = 0; args[0].k = NULL; }

static const char *ids[] = { "tester", "second", "third" }, *psks[] = { "secret", "other", "word" };
static char tmo[20];

static void
base(int obj)
{
	fresh();
	L("host", "server.example.org");
#ifdef PYTHON
	L("port", "5668");
#endif
	L("identity", ids[obj]);
	L("psk", psks[obj]);
#ifdef PERL
	snprintf(tmo, sizeof(tmo), "%d", (int)lib_timeout);
	if (lib_timeout != 10) /* the default */
		L("timeout", tmo);
#endif
}

static void
must_new(int obj)
{
	const char *r = lib_new(obj, args);

	if (r != NULL)
		mc_fail("cannot create an object: %s", r);
}

static void
call_args(void)
{
	fresh();
#ifdef PYTHON
	if (lib_timeout != 5) {
		snprintf(tmo, sizeof(tmo), "%d", (int)lib_timeout);
		L("timeout", tmo);
	}
#endif
}

static const char *
result(int obj, const char *node, const char *svc, const char *rc, const char *text)
{
	size_t n = strlen(text);

	exp_.n = 0;
	sb_adds(&exp_, "\1");
	sb_adds(&exp_, svc ? "PROCESS_SERVICE_CHECK_RESULT;" : "PROCESS_HOST_CHECK_RESULT;");
	sb_adds(&exp_, node);
	if (svc) {
		sb_adds(&exp_, ";");
		sb_adds(&exp_, svc);
	}
	sb_adds(&exp_, ";");
	sb_adds(&exp_, rc);
	sb_adds(&exp_, ";");
	sb_adds(&exp_, text);
	if (n == 0 || text[n - 1] != '\n')
		sb_adds(&exp_, "\n");
	call_args();
	L("node_name", node);
	if (svc)
		L("svc_description", svc);
	L("return_code", rc);
	L("plugin_output", text);
	return lib_call(svc ? OP_SVC : OP_HOST, obj, args, exp_.p, exp_.n);
}

#ifdef PERL
/* Which submission a command string stands for: the manual asks for [timestamp]. */
static const char *
command(int obj, const char *c)
{
	const char *p = c;

	exp_.n = 0;
	if (*p == '[') {
		const char *q = ++p;

		while (*p >= '0' && *p <= '9')
			p++;
		if (p == q || *p != ']' || p - q > 18) {
			/* not a timestamp: refuse it */
			call_args();
			L("command", c);
			return lib_call(OP_CMD, obj, args, NULL, 0);
		}
	} else
		sb_adds(&exp_, "\1");
	sb_adds(&exp_, c);
	if (c[0] == '\0' || c[strlen(c) - 1] != '\n')
		sb_adds(&exp_, "\n");
	call_args();
	L("command", c);
	return lib_call(OP_CMD, obj, args, exp_.p, exp_.n);
}
#endif

static const char *
kind(int obj, int k)
{
	switch (k) {
	case 0: return result(obj, "node", "service", "1", "some output");
	case 1: return result(obj, "node2", NULL, "0", "up");
#ifdef PERL
	default: return command(obj, "DO_IT;1;2");
#else
	default: return result(obj, "n", "s", "3", "");
#endif
	}
}

/* Every misbehaviour of the server, the network. */
static void
sc_talk(void *arg)
{
	int n = ARG & 15, i;

	lib_reset();
	base(0);
	must_new(0);
	peer_faults = 1;
	if (ARG & 16) {
		W.k_write_choices = 1;
		W.k_recmax = 9;
	}
	if (ARG & 32)
		rssl_cut = 1;
	for (i = 0; i < n; i++)
		kind(0, ARG & 64 ? i % 3 : mc_choose_free(3, "call"));
	lib_finish();
}

/* After whatever went wrong, the next call works again. */
static void
sc_again(void *arg)
{
	int i;

	(void)arg;
	lib_reset();
	base(0);
	must_new(0);
	peer_faults = 1;
	kind(0, mc_choose_free(3, "call"));
	peer_faults = 0;
	for (i = 0; i < W.nconns; i++)
		;
	kind(0, 1);
	kind(0, 0);
	lib_finish();
}

/* The server ends the idle session. */
static void
sc_idle(void *arg)
{
	static const int how[] = { PB_FIN, PB_RST, PB_CN };
	int h = mc_choose_free(3, "how"), k = mc_choose_free(3, "call");

	(void)arg;
	lib_reset();
	base(0);
	must_new(0);
	kind(0, k);
	lib_idle(how[h]);
	if (mc_choose_free(2, "another call")) {
		kind(0, 0);
		kind(0, 2);
		kind(0, 1);
	}
	lib_finish();
}

/* What the server says when refusing. */
static void
sc_refusal(void *arg)
{
	static const char *const text[] = { " You're not authorized", "", " ", " %s%n%s%n%d", " a", "  two", " \303\244\303\266", ":x" };
	static const int how[] = { PB_FAIL, PB_BAIL };
	int at = mc_choose_free(3, "when"), h = mc_choose_free(2, "how"), t = mc_choose_free(NEL(text) + 2, "text"), k = mc_choose_free(3, "call");
	char buf[200];
	const char *r;

	(void)arg;
	lib_reset();
	base(0);
	must_new(0);
	peer_script[0] = PB_OK;                 /* handshake */
	peer_script[1] = PB_OK;
	peer_script[2] = PB_OK;
	peer_script[at + 1] = how[h];
	peer_nscript = at + 2;
	if (t < NEL(text))
		peer_trailing = text[t];
	else {
		memset(buf, 'x', sizeof(buf));
		buf[0] = ' ';
		buf[t == NEL(text) ? 100 : 190] = '\0';
		peer_trailing = buf;
	}
	r = kind(0, k);
#ifdef PERL
	{
		const char *p = peer_trailing[0] == ' ' ? peer_trailing + 1 : "";

		if (r == NULL)
			mc_fail("the refusal was ignored");
		if (strstr(r, p) == NULL)
			mc_fail("the server's explanation \"%s\" isn't part of the error message: %s", p, r);
		if (strstr(r, h ? "BAIL" : "FAIL") == NULL)
			mc_fail("the error message \"%s\" doesn't tell what happened", r);
	}
#else
	if (r != NULL)
		mc_fail("harness: Python's second attempt");
#endif
	kind(0, 0);
	lib_finish();
}

/* Refused for good: the error message has the reason. */
static void
sc_refusals(void *arg)
{
	int at = mc_choose_free(3, "when"), h = mc_choose_free(2, "how"), k = mc_choose_free(3, "call"), i, n = 0;
	const char *r;

	(void)arg;
	lib_reset();
	base(0);
	must_new(0);
	for (i = 0; i < 2; i++) {
		int j;

		for (j = 0; j < at + 1; j++)
			peer_script[n++] = PB_OK;
		peer_script[n++] = h ? PB_BAIL : PB_FAIL;
	}
	peer_nscript = n;
	peer_trailing = " Not for %s%d you";
	r = kind(0, k);
	if (r == NULL)
		mc_fail("the refusal was ignored");
	if (!strstr(r, "Not for %s%d you"))
		mc_fail("the server's explanation isn't part of the error message: %s", r);
	lib_finish();
}


/* Responses which certainly aren't acceptable, at every point */
static const char *const ODD_MOIN[] = { "MOIN 2", "MOIN 10", "MOIN 11", "MOIN 0", "MOIN -1", "MOIN", "MOIN ", "MOIN x", "MOI 1", "M", "OKAY", "PONG 1", "QUIT", " MOIN 1",
	"XMOIN 1", "MOIN 100", "MOIN 1000000", "NOT MOIN 1", "FAIL", "FAIL MOIN 1", "BAIL", "BAIL MOIN 1" };
static const char *const ODD_OKAY[] = { "OKA", "OK", "O", "MOIN 1", "XOKAY", " OKAY", "NO", "PONG 1", "KAY", "NOT OKAY", "YAKO", "0", "OK AY", "FAIL", "FAIL OKAY", "BAIL", "BAIL OKAY", "F", "B" };
static void
sc_responses(void *arg)
{
	int at = mc_choose_free(3, "when"), h = mc_choose_free(at ? NEL(ODD_OKAY) : NEL(ODD_MOIN), "response"), k = mc_choose_free(3, "call"), i, j, n = 0;

	(void)arg;
	lib_reset();
	base(0);
	must_new(0);
	for (i = 0; i < 2; i++) {
		for (j = 0; j < at + 1; j++)
			peer_script[n++] = PB_OK;
		peer_script[n++] = PB_TEXT;
	}
	peer_nscript = n;
	peer_text = at ? ODD_OKAY[h] : ODD_MOIN[h];
	if (kind(0, k) == NULL)
		mc_fail("success although the server said \"%s\"", peer_text);
#ifdef PERL
	peer_nscript = 0;
#endif
	kind(0, 0);
	lib_finish();
}

/* Long responses in two pieces */
static void
sc_pieces(void *arg)
{
	static const int sizes[] = { 8, 100, 1000, 1020, 1021, 1022, 1023, 1024, 1025, 1026, 1030, 1500, 2046, 2048, 2500, 3000 };
	static const int cuts[] = { 1, 4, 6, 500, 1000, 1020, 1021, 1022, 1023, 1024, 1025, 1026, 1500, 2047, 2500 };
	static const char *const what[] = { "FAIL ", "BAIL ", "WHAT ", "" };
	static char text[3100];
	int at = mc_choose_free(3, "when"), k = mc_choose_free(mc_tier_thorough() ? 3 : 1, "call"), n = sizes[mc_choose_free(NEL(sizes), "length")], w = mc_choose_free(4, "what"), i, j, m = 0;
	int cut = cuts[mc_choose_free(NEL(cuts), "cut")], together = mc_choose_free(2, "later/at once");

	(void)arg;
	if (cut > n + 1)
		return;
	lib_reset();
	base(0);
	must_new(0);
	for (i = 0; i < 2; i++) {
		for (j = 0; j < at + 1; j++)
			peer_script[m++] = PB_OK;
		peer_script[m++] = PB_TEXT;
	}
	peer_nscript = m;
	for (i = (int)strlen(strcpy(text, what[w])); i < n; i++)
		text[i] = (char)('a' + i % 26);
	text[n] = '\0';
	peer_text = text;
	peer_cut = cut;
	peer_cut_together = together;
	if (kind(0, k) == NULL)
		mc_fail("success although the server said something else");
#ifdef PERL
	peer_nscript = 0;
	if (kind(0, 0))
		mc_fail("the object isn't usable after an odd response");
#endif
	lib_finish();
}

/* The server keeps sending, but never finishes its response. */
static void
sc_drip(void *arg)
{
	static const double d[] = { 0.3, 1, 1.9 };
	int at = mc_choose_free(3, "when"), k = mc_choose_free(3, "call"), i, j, n = 0;

	(void)arg;
	lib_reset();
	peer_drip = d[mc_choose_free(3, "pause")];
	base(0);
	must_new(0);
	for (i = 0; i < 2; i++) {
		for (j = 0; j < at + 1; j++)
			peer_script[n++] = PB_OK;
		peer_script[n++] = PB_DRIP;
	}
	peer_nscript = n;
	if (kind(0, k) == NULL)
		mc_fail("success although the server never finished its response");
	lib_finish();
}

/* Field values */
static void
sc_fields(void *arg)
{
	static const char *const val[] = { "x", "", "a b", "semi;colon", "[1] x", "%s%n%d", "tab\there", "\303\244", "back\\slash\\n",
		"quote'\"", "\r", "cr\r", " lead", "trail " };
	static const char *const rcs[] = { "0", "1", "2", "3", "4", "10", "-1", "255", "2147483647" };
	int which = mc_choose_free(4, "field"), k = mc_choose_free(2, "kind"), v;
	const char *node = "node", *svc = k ? "service" : NULL, *rc = "1", *out = "output";

	(void)arg;
	if (which == 3)
		rc = rcs[mc_choose_free(NEL(rcs), "value")];
	else {
		v = mc_choose_free(NEL(val), "value");
		if (which == 0) node = val[v];
		else if (which == 1 && k) svc = val[v];
		else if (which == 2) out = val[v];
	}
	lib_reset();
	base(0);
	must_new(0);
	result(0, node, svc, rc, out);
	if (mc_choose_free(2, "again"))
		result(0, node, svc, rc, out);
	lib_finish();
}

/* Lengths around the sizes of the buffers in use. */
static void
sc_lengths(void *arg)
{
	static const int around[] = { 100, 980, 1000, 1024, 2048, 4096, 16384, 65000 };
	static char big[70000];
	int which = mc_choose_free(3, "field"), k = mc_choose_free(2, "kind"), n, i;

	n = ARG ? around[mc_choose_free(NEL(around), "length")] + mc_choose_free(5, "offset") - 2
	    : 900 + mc_choose_free(140, "length");
	for (i = 0; i < n; i++)
		big[i] = (char)('a' + (i * 7 + i / 26) % 26);
	big[n] = '\0';
	lib_reset();
	base(0);
	must_new(0);
	if (ARG && mc_choose_free(2, "small segments")) {
		W.k_recmax = 600;
		W.k_write_choices = 1;
	}
	result(0, which == 0 ? big : "node", k ? which == 1 ? big : "svc" : NULL, "2", which == 2 ? big : "out");
	result(0, "node", NULL, "0", "fine");
	lib_finish();
}

#ifdef PERL
static const char alpha[] = "[]09 A;\n";
static void
sc_letters(void *arg)
{
	char s[20];
	int n = mc_choose_free(ARG & 15, "length"), i, pre = ARG & 16 ? mc_choose_free(3, "earlier call") : 0;

	for (i = 0; i < n; i++)
		s[i] = alpha[mc_choose_free(NEL(alpha) - 1, "character")];
	s[n] = '\0';
	for (i = 0; i + 1 < n; i++)
		if (s[i] == '\n')
			mc_abandon();
	if (n == 0 || !strcmp(s, "\n"))
		return;         /* what an empty command stands for isn't specified */
	lib_reset();
	base(0);
	must_new(0);
	if (pre == 1)
		result(0, "node", "service", "1", "text");
	else if (pre == 2) {
		peer_script[0] = PB_FIN;
		peer_nscript = 1;
		result(0, "node", "service", "1", "text");
	}
	command(0, s);
	lib_finish();
}
static void
sc_command_lengths(void *arg)
{
	static char big[70000];
	int ts = mc_choose_free(2, "timestamp"), nl = mc_choose_free(2, "newline"), n, i;

	n = ARG ? 16360 + mc_choose_free(40, "length") : 980 + mc_choose_free(60, "length");
	for (i = 0; i < n; i++)
		big[i] = (char)('A' + (i * 7 + i / 26) % 26);
	if (ts)
		memcpy(big, "[1234567890] ", 13);
	if (nl)
		big[n - 1] = '\n';
	big[n] = '\0';
	lib_reset();
	base(0);
	must_new(0);
	command(0, big);
	command(0, "NEXT;1");
	lib_finish();
}

/* Defaults given to the constructor */
static void
sc_defaults(void *arg)
{
	int cn = mc_choose_free(2, "constructor: node"), cs = mc_choose_free(2, "constructor: service"),
	    n = mc_choose_free(3, "node"), s = mc_choose_free(3, "service"), host = mc_choose_free(2, "host result"), i;
	const char *node = NULL, *svc = NULL;

	(void)arg;
	lib_reset();
	base(0);
	if (cn) { L("node_name", "cnode"); node = "cnode"; }
	if (cs) { L("svc_description", "csvc"); svc = "csvc"; }
	must_new(0);
	for (i = 0; i < 2; i++) {
		call_args();
		if (n == 1 && i == 0) { L("node_name", "other"); }
		if (n == 2) L("node_name", NULL);
		if (s == 1 && i == 0) { L("svc_description", "osvc"); }
		if (s == 2) L("svc_description", NULL);
		L("return_code", "2");
		L("plugin_output", "text");
		exp_.n = 0;
		if ((n == 1 && i == 0 ? "other" : node) && (host || (s == 1 && i == 0 ? "osvc" : svc))) {
			sb_addf(&exp_, "\1PROCESS_%s_CHECK_RESULT;%s;", host ? "HOST" : "SERVICE", n == 1 && i == 0 ? "other" : node);
			if (!host)
				sb_addf(&exp_, "%s;", s == 1 && i == 0 ? "osvc" : svc);
			sb_adds(&exp_, "2;text\n");
			lib_call(host ? OP_HOST : OP_SVC, 0, args, exp_.p, exp_.n);
		} else {
			const char *r = lib_call(host ? OP_HOST : OP_SVC, 0, args, NULL, 0);

			if (r && !strstr(r, "missing"))
				mc_fail("a missing name leads to the message: %s", r);
		}
	}
	lib_finish();
}
#endif

/* What the constructor refuses */
static void
sc_constructor(void *arg)
{
	static const char *const bad[] = { "NO-SUCH-CIPHER", "%s%n%d", "" };
	int w = mc_choose_free(8, "what"), v;
	const char *r;

	(void)arg;
	lib_reset();
	fresh();
	if (w < 3) {
		base(0);
		L("ciphers", bad[w]);
		r = lib_new(0, args);
		if (w < 2 && r == NULL)
			mc_fail("illegal ciphers were accepted");
	} else if (w == 3) {
		base(0);
		L("ciphers", "PSK-AES256-CBC-SHA");
		must_new(0);
		kind(0, 0);
		if (strcmp(W.gai_serv, "5668"))
			mc_fail("connected to port %s, not to the default port", W.gai_serv);
	} else if (w == 4) {
		v = mc_choose_free(4, "missing argument");
#ifdef PYTHON
		{
			static const char *const k[] = { "host", "identity", "psk", "port" };
			int i;

			for (i = 0; i < 4; i++)
				if (i != v)
					L(k[i], "5");
			r = lib_new(0, args);
			if (r == NULL)
				mc_fail("an argument is missing");
		}
#else
		base(0);
		args[v % 3].v = NULL;
		r = lib_new(0, args);
		if (r != NULL && *r == '\0')
			mc_fail("no message");
#endif
	} else if (w == 5) {
		base(0);
		must_new(0);
		base(1);
		L("ciphers", "NONE-OF-THEM");
		if (lib_new(1, args) == NULL)
			mc_fail("illegal ciphers were accepted");
		kind(0, 0);
	} else if (w == 6) {
		/* never used */
		base(0);
		must_new(0);
		base(1);
		must_new(1);
	} else {
		base(0);
#ifdef PYTHON
		args[1].v = "1234";
#else
		L("port", "1234");
		lib_new_style = mc_choose_free(2, "inline/hash reference");
#endif
		must_new(0);
		kind(0, 0);
		if (strcmp(W.gai_serv, "1234") || strcmp(W.gai_host, "server.example.org"))
			mc_fail("connected to %s:%s", W.gai_host, W.gai_serv);
	}
	lib_finish();
}

/* The server only knows other credentials. */
#ifdef PYTHON
static void
sc_none(void *arg)
{
	static const char *const k[] = { "node_name", "svc_description", "return_code", "plugin_output" }, *const v[] = { "node", "service", "1", "text" };
	static const char *const nk[] = { "host", "port", "identity", "psk" }, *const nv[] = { "server.example.org", "5668", "tester", "secret" };
	int w = mc_choose_free(11, "which argument is None"), i;

	(void)arg;
	lib_reset();
	if (w < 4) {
		fresh();
		for (i = 0; i < 4; i++)
			L(nk[i], i == w ? NULL : nv[i]);
		if (lib_new(1, args) == NULL)
			mc_fail("an object was created although %s is None", nk[w]);
	}
	base(0);
	must_new(0);
	if (w >= 4) {
		int host = w >= 8;

		call_args();
		for (i = 0; i < 4; i++)
			if (!(host && i == 1))
				L(k[i], (host ? i - (i > 1) == w - 8 : i == w - 4) ? NULL : v[i]);
		lib_call(host ? OP_HOST : OP_SVC, 0, args, NULL, 0);
	}
	kind(0, 0);
	lib_finish();
}
#endif
static void
sc_wrong(void *arg)
{
	int w = mc_choose_free(3, "what's wrong"), i, k;
	static const char *const kid[] = { "tester", "nobody", "teste" }, *const kpw[] = { "secreT", "secret", "secret" };

	(void)arg;
	lib_reset();
	base(0);
	must_new(0);
	lib_wrong = 1;
	lib_who[7][0] = kid[w];
	lib_who[7][1] = kpw[w];
	lib_who[0][0] = NULL;
	for (i = 0; i < 2; i++) {
		k = mc_choose_free(3, "call");
		if (kind(0, k) == NULL)
			mc_fail("success in spite of wrong credentials");
	}
	lib_finish();
}

/* Objects don't influence each other. */
static void
sc_two(void *arg)
{
	int i, n = ARG & 7, live[3] = { 0 }, o, a;

	lib_reset();
	peer_faults = (ARG & 8) != 0;
	for (i = 0; i < n; i++) {
		o = mc_choose_free(2, "object");
		if (!live[o]) {
			base(o);
			must_new(o);
			live[o] = 1;
		}
		a = mc_choose_free(3, "call");
		kind(o, a);
	}
	lib_finish();
}

/* Other versions of TLS; the server's flights in pieces */
static void
sc_tls(void *arg)
{
	int v = mc_choose_free(2, "version"), i;

	lib_reset();
	base(0);
	if (v) {
		for (i = 0; i < MAXCONN; i++) {
			RC[i].minver = RC[i].maxver = TLS1_2_VERSION;
		}
	}
	must_new(0);
	rssl_cut = ARG;
	kind(0, 0);
	kind(0, 1);
	lib_finish();
}

/* A slow server is fine. */
static void
sc_slow(void *arg)
{
	static const double d[] = { 0.5, 1.5, 3, 4.5, 8 };
	static const int t[] = { 2, 5, 10 };
	int ti = mc_choose_free(3, "timeout"), di = mc_choose_free(NEL(d), "delay");

	(void)arg;
	lib_reset();
	lib_timeout = t[ti];
	if (d[di] > lib_timeout - 0.5)
		return;
	peer_delay = d[di];
	base(0);
	must_new(0);
	kind(0, 0);
	kind(0, 1);
	lib_finish();
}

/* Never answering servers */
#ifdef PERL
static void
sc_constants(void *arg)
{
	static const char *const n[] = { "OK", "WARNING", "CRITICAL", "UNKNOWN", "DEPENDENT" };
	int k = mc_choose_free(5, "name"), how = mc_choose_free(3, "import");
	const char *r;
	char want[20];

	(void)arg;
	lib_reset();
	fresh();
	L("name", n[k]);
	L("import", how == 0 ? ":rcodes" : how == 1 ? ":all" : n[k]);
	r = glue_call(OP_GET, 0, args, 0);
	snprintf(want, sizeof(want), "%d\n", k);
	if (r == NULL || strcmp(r, want))
		mc_fail("the value of %s is %s", n[k], r ? r : "undefined");
	mc_nontrivial((uint64_t)(k * 3 + how));
	lib_finish();
}
#endif
static void
sc_silent(void *arg)
{
	static const int t[] = { 1, 2, 5, 10, 60 };
	int ti = mc_choose_free(NEL(t), "timeout"), at = mc_choose_free(4, "when"), k = mc_choose_free(3, "call"), i, j, n = 0;

	(void)arg;
	lib_reset();
	lib_timeout = t[ti];
	base(0);
	must_new(0);
	for (j = 0; j < 2; j++) {
		for (i = 0; i < at; i++)
			peer_script[n++] = PB_OK;
		peer_script[n++] = PB_SILENT;
	}
	peer_nscript = n;
	if (kind(0, k) == NULL)
		mc_fail("success although the server was silent");
	lib_finish();
}

/* Answers which arrive after the call was given up must not be taken for those of the next one. */
static void
sc_late(void *arg)
{
	int at = 1 + mc_choose_free(3, "which reaction is late"), i, n = 0;
	static const double d[] = { 3.5, 6, 11 };
	double by = d[mc_choose_free(NEL(d), "delay")];

	(void)arg;
	lib_reset();
	base(0);
	must_new(0);
#ifdef PYTHON
	/* the library tries twice */
	for (i = 0; i < 2 * (at + 1); i++)
		if (i % (at + 1) == at)
			peer_delays[i] = by;
	n = mc_choose_free(3, "the first attempt");
	if (n) {
		peer_delays[at] = 0;
		for (i = 0; i < at; i++)
			peer_script[i] = PB_OK;
		peer_script[at] = n == 1 ? PB_FAIL : PB_BAIL;
		peer_nscript = at + 1;
	}
#else
	peer_delays[at] = by;
#endif
	lib_late = peer_impatient = 1;
	kind(0, 0);
	if (mc_choose_free(2, "pause"))
		lib_pause(20);
	kind(0, 1);
	memset(peer_delays, 0, sizeof(peer_delays));
	kind(0, 2);
	lib_late = 0;
	kind(0, 0);
	kind(0, 1);
	lib_finish();
}

#ifdef PYTHON
static void
sc_attr(void *arg)
{
	const char *r;
	int use = mc_choose_free(2, "after a call");

	(void)arg;
	lib_reset();
	base(0);
	args[1].v = "5669";
	must_new(0);
	if (use)
		kind(0, 0);
	fresh();
	L("host", NULL);
	r = glue_call(OP_GET, 0, args, 0);
	if (r == NULL || strcmp(r, "server.example.org"))
		mc_fail("the host attribute is %s", r ? r : "missing");
	fresh();
	L("port", NULL);
	r = glue_call(OP_GET, 0, args, 0);
	if (r == NULL || strcmp(r, "5669"))
		mc_fail("the port attribute is %s", r ? r : "missing");
	lib_finish();
}
#endif

#ifdef PYTHON
/* Objects used before their initialisation, after a failed one, and initialised again. */
static void
sc_life(void *arg)
{
	int n = ARG, i, ready = 0, v;

	lib_reset();
	base(0);
	if (mc_choose_free(2, "create the object without initialising it")) {
		if (lib_init(0, args, OP_RAW) != NULL)
			mc_fail("cannot create an object");
	} else {
		must_new(0);
		ready = 1;
	}
	for (i = 0; i < n; i++)
		switch (v = mc_choose_free(6, "step")) {
		case 0:
		case 1:
			if (ready)
				kind(0, v);
			else {
				call_args();
				L("node_name", "n");
				if (v == 0)
					L("svc_description", "s");
				L("return_code", "1");
				lib_call(v == 0 ? OP_SVC : OP_HOST, 0, args, NULL, 0);
			}
			break;
		case 2:
		case 3:
			base(v == 2 ? 0 : 1);
			if (lib_init(0, args, OP_INIT) != NULL)
				mc_fail("cannot initialise the object again");
			ready = 1;
			lib_late = 0;
			break;
		case 4:
			base(0);
			L("ciphers", "NO-SUCH-CIPHER");
			if (lib_init(0, args, OP_INIT) == NULL)
				mc_fail("illegal ciphers were accepted");
			ready = 0;
			lib_late = 0;
			break;
		case 5:
			fresh();
			L("host", "server.example.org");
			if (lib_init(0, args, OP_INIT) == NULL)
				mc_fail("arguments are missing");
			if (ready == 0)
				break;
			lib_late = 1; /* the object may or may not be usable */
			break;
		}
	lib_finish();
}
#endif

#ifdef PERL
#define P "C30"
#else
#define P "C31"
#endif
mc_scenario SCN[] = {
	{ "talk", P, sc_talk, A(1), 3, 4 },
	{ "talk-3", P, sc_talk, A(3 + 64), 2, 3 },
	{ "talk-block", P, sc_talk, A(1 + 16), 2, 4 },
	{ "talk-cut", P, sc_talk, A(2 + 32 + 64), 2, 3 },
	{ "again", P, sc_again, A(0), 2, 3 },
	{ "idle", P, sc_idle, A(0), 0, 0 },
	{ "refusal", P, sc_refusal, A(0), 0, 0 },
	{ "refusals", P, sc_refusals, A(0), 0, 0 },
	{ "responses", P, sc_responses, A(0), 0, 0 },
	{ "pieces", P, sc_pieces, A(0), 0, 0 },
	{ "drip", P, sc_drip, A(0), 0, 0 },
	{ "fields", P, sc_fields, A(0), 0, 0 },
	{ "lengths", P, sc_lengths, A(0), 0, 0 },
	{ "lengths-more", P, sc_lengths, A(1), 1, 3 },
#ifdef PERL
	{ "letters", P, sc_letters, A(5), 0, 0 },
	{ "letters-later", P, sc_letters, A(16 + 4), 0, 0 },
	{ "letters-6", P, sc_letters, A(6), -1, 0 },
	{ "command-lengths", P, sc_command_lengths, A(0), 0, 0 },
	{ "command-lengths-more", P, sc_command_lengths, A(1), 0, 0 },
	{ "defaults", P, sc_defaults, A(0), 0, 0 },
#else
	{ "attributes", P, sc_attr, A(0), 0, 0 },
	{ "life", P, sc_life, A(4), 0, 0 },
	{ "life-5", P, sc_life, A(5), -1, 0 },
#endif
	{ "constructor", P, sc_constructor, A(0), 0, 0 },
	{ "wrong", P, sc_wrong, A(0), 0, 0 },
	{ "two", P, sc_two, A(3), 0, 0 },
	{ "two-faults", P, sc_two, A(2 + 8), 1, 2 },
	{ "tls", P, sc_tls, A(0), 0, 0 },
	{ "tls-cut", P, sc_tls, A(1), 3, 5 },
	{ "slow", P, sc_slow, A(0), 0, 0 },
#ifdef PYTHON
	{ "none", P, sc_none, A(0), 0, 0 },
#endif
#ifdef PERL
	{ "constants", P, sc_constants, A(0), 0, 0 },
#endif
	{ "silent", P, sc_silent, A(0), 0, 0 },
	{ "late", P, sc_late, A(0), 0, 0 },
};
int main(int argc, char **argv) { glue_start(); return mc_main(argc, argv, SCN, NEL(SCN)); }
