#define _GNU_SOURCE
#include "cli.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>

#define A(n) ((void *)(intptr_t)(n))
#define ARG ((int)(intptr_t)arg)
#define NEL(a) ((int)(sizeof(a) / sizeof(*(a))))

static char xs[40][64];
static const char *fmt1(int i, const char *f, int v) { snprintf(xs[i], sizeof(xs[i]), f, v); return xs[i]; }

/* Every text over a small alphabet. */
static void
letters(const char *alpha, int n_alpha, int max)
{
	int i, len = mc_choose_free(max + 1, "length");

	for (i = 0; i < len; i++)
		sb_add(&cli_input, alpha + mc_choose_free(n_alpha, "character"), 1);
}
static void
sc_letters(void *arg)
{
	int thorough = mc_tier_thorough();

	cli_reset();
	switch (ARG) {
	case 0: /* check results */
		sb_adds(&cli_input, "");
		letters("\tx\n\\\27", 5, thorough ? 7 : 6);
		break;
	case 1: /* commands */
		cli_raw = 1;
		cli_arg("-C");
		letters("x[ \n\r\\", 6, thorough ? 6 : 5);
		break;
	case 2: /* check results, around two fields */
		sb_adds(&cli_input, "h\t0\t");
		letters("\tx\n\\\27\r;", 7, thorough ? 6 : 5);
		break;
	case 3:
		letters("\tx\r\n\27", 5, thorough ? 4 : 3);
		sb_adds(&cli_input, "h\ts\t0\tm");
		letters("\tx\r\n\27\\", 6, thorough ? 4 : 3);
		break;
	}
	cli_go();
}

/* Other delimiters and separators. */
static void
sc_delims(void *arg)
{
	static const struct { const char *arg; int c; } d[] = {
		{ NULL, '\t' }, { ",", ',' }, { "x", 'x' }, { "\\t", '\t' }, { "0x3b", ';' }, { "072", ':' }, { " ", ' ' },
		{ "\\x2c", ',' }, { "\\054", ',' }, { "0", '0' }, { "\\a", 7 }, { "\\r", '\r' }, { "n", 'n' },
	}, e[] = {
		{ NULL, 27 - 4 }, { "\\n", '\n' }, { "@", '@' }, { "0x40", '@' }, { "\\0", 0 }, { "0", '0' }, { "\\v", 11 }, { "012", '\n' },
	};
	int i = mc_choose_free(NEL(d), "delimiter"), j = mc_choose_free(NEL(e), "separator"), k, v, len;
	char alpha[6];

	(void)arg;
	cli_reset();
	if (d[i].arg) { cli_arg("-d"); cli_arg(d[i].arg); }
	if (e[j].arg) { cli_arg("-e"); cli_arg(e[j].arg); }
	cli_delim = (char)d[i].c;
	cli_sep = (char)e[j].c;
	alpha[0] = cli_delim;
	alpha[1] = 'h';
	alpha[2] = cli_sep == '\0' ? '/' : cli_sep;
	alpha[3] = '\n';
	len = mc_choose_free(mc_tier_thorough() ? 6 : 5, "length");
	sb_addf(&cli_input, "h%c1%c", cli_delim, cli_delim);
	for (k = 0; k < len; k++) {
		v = mc_choose_free(4, "character");
		sb_add(&cli_input, &alpha[v], 1);
	}
	cli_go();
}

/* How standard input is cut into pieces, and when they arrive. */
static const char *const TEXTS[] = {
	"h1\t0\tup\n\27h2\ts\t1\tline 1\nline 2\\\n\27h3\ts\t2\tx\n",
	"h1\t0\tup\27h2\ts\t1\tgone",
	"\n\27\27h1\t0\tup\n\27\n",
	"[123] FIRST;a\nSECOND;b\r\n\n\n  [4] THIRD\nFOURTH",
	"",
	"h1\t0\tup\n\27h2\t1\n\27h3\t0\tup\n",
};
static void
sc_pieces(void *arg)
{
	int t = mc_choose_free(NEL(TEXTS), "input"), i, n;
	size_t l = strlen(TEXTS[t]);

	cli_reset();
	if (t == 3) {
		cli_raw = 1;
		cli_arg("-C");
	}
	sb_adds(&cli_input, TEXTS[t]);
	n = mc_choose_free(ARG + 1, "pauses");
	if (l == 0)
		n = 0;
	for (i = 0; i < n; i++)
		cli_cut[i] = (size_t)mc_choose_free((int)l, "pause after");
	for (i = 1; i < n; i++)
		if (cli_cut[i] < cli_cut[i - 1])
			mc_abandon();
	cli_ncut = n;
	cli_go();
}
static void
sc_bytes(void *arg)
{
	int t = mc_choose_free(NEL(TEXTS), "input"), i;

	cli_reset();
	if (t == 3) {
		cli_raw = 1;
		cli_arg("-C");
	}
	sb_adds(&cli_input, TEXTS[t]);
	for (i = 0; i < (int)strlen(TEXTS[t]) && i < 64 && !(ARG & 4); i++)
		cli_cut[cli_ncut++] = (size_t)i;
	if (ARG & 1)
		W.k_file_faults = 1;
	if (ARG & 2)
		W.k_stdin_error = 1;
	if (ARG & 4)
		W.stdin_is_file = W.stdin_eof = 1;
	cli_go();
}

/* Records of every size around the limits of the buffers in use. */
static void
sc_sizes(void *arg)
{
	static const int base[] = { 1, 100, 127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8192,
		16383, 16384, 16385, 20000, 65535, 65536 };
	int two = ARG & 1, k, n, i;
	char *p;

	cli_reset();
	if (ARG & 2) {
		cli_raw = 1;
		cli_arg("-C");
	}
	for (k = 0; k <= two; k++) {
		n = base[mc_choose_free(two ? 22 : ARG & 4 ? 8 : NEL(base), "size")] + (two ? 0 : mc_choose_free(5, "offset") - 2);
		if (n < 1)
			n = 1;
		if (k)
			sb_adds(&cli_input, cli_raw ? "\n" : "\27");
		sb_adds(&cli_input, cli_raw ? "CMD;" : "h\ts\t0\t");
		p = malloc((size_t)n);
		for (i = 0; i < n; i++)
			p[i] = (char)('a' + (i * 7 + i / 26) % 26);
		if (n > 10 && !cli_raw && mc_choose_free(2, "newline inside"))
			p[n / 2] = '\n';
		sb_add(&cli_input, p, (size_t)n);
		free(p);
	}
	if (mc_choose_free(2, "trailing newline"))
		sb_adds(&cli_input, "\n");
	if (ARG & 4) {
		W.k_recmax = 600;
		W.k_write_choices = 1;
	}
	cli_go();
}

/* Every misbehaviour of the server and the network. */
static void
sc_talk(void *arg)
{
	static const char *const in[] = {
		"h1\t0\tup\n\27h2\ts\t1\tdown\n", "", "h1\t0\tup\n", "h1\t0\tup\n\27oops\n", "h1\t0\tup\n\27h2\t0\tup\n\27h3\t0\tup\n",
	};
	int t = ARG & 8 ? 0 : mc_choose_free(NEL(in), "input");

	cli_reset();
	peer_faults = 1;
	sb_adds(&cli_input, in[t]);
	if (ARG & 1)
		cli_cut[cli_ncut++] = 0;        /* input arrives late */
	if (ARG & 2)
		W.k_write_choices = 1;
	if (ARG & 4) {
		W.k_wantread = 1;
		cli_cut[cli_ncut++] = 3;
	}
	if (ARG & 16)
		W.k_recmax = 7;
	cli_go();
}


/* Responses which certainly aren't acceptable, at every point */
static const char *const ODD_MOIN[] = { "MOIN 2", "MOIN 10", "MOIN 11", "MOIN 0", "MOIN -1", "MOIN", "MOIN ", "MOIN x", "MOI 1", "M", "OKAY", "PONG 1", "QUIT", " MOIN 1",
	"XMOIN 1", "MOIN 100", "MOIN 1000000", "NOT MOIN 1", "FAIL", "FAIL MOIN 1", "BAIL", "BAIL MOIN 1" };
static const char *const ODD_OKAY[] = { "OKA", "OK", "O", "MOIN 1", "XOKAY", " OKAY", "NO", "PONG 1", "KAY", "NOT OKAY", "YAKO", "0", "OK AY", "FAIL", "FAIL OKAY", "BAIL", "BAIL OKAY", "F", "B" };
static void
sc_responses(void *arg)
{
	int at = mc_choose_free(5, "when"), h = mc_choose_free(at ? NEL(ODD_OKAY) : NEL(ODD_MOIN), "response"), j, n = 0;

	(void)arg;
	cli_reset();
	for (j = 0; j < at + 1; j++)
		peer_script[n++] = PB_OK;
	peer_script[n++] = PB_TEXT;
	peer_nscript = n;
	peer_text = at ? ODD_OKAY[h] : ODD_MOIN[h];
	sb_adds(&cli_input, "h1\t0\tup\n\27h2\ts\t1\tdown\n");
	cli_go();
	if (W.exit_code == 0)
		mc_fail("success although the server said \"%s\"", peer_text);
}

/* Many blank lines aren't special. */
static void
sc_blank(void *arg)
{
	int i;

	cli_reset();
	cli_raw = 1;
	cli_arg("-C");
	sb_adds(&cli_input, "FIRST\n");
	for (i = 0; i < ARG; i++)
		sb_adds(&cli_input, i % 3 ? "\n" : "\r\n");
	sb_adds(&cli_input, "LAST\n");
	cli_go();
}
static void
sc_many(void *arg)
{
	int i;

	cli_reset();
	for (i = 0; i < ARG; i++)
		sb_addf(&cli_input, "host%d\tsvc\t%d\tmessage\n\27", i, i % 4);
	cli_go();
}

/* A slow server is fine; a silent one isn't waited for longer than configured. */
static void
sc_slow(void *arg)
{
	static const double delays[] = { 0.5, 4, 9, 14, 14.9 };
	static const int touts[] = { 15, 0, 5, 60 };
	int t = mc_choose_free(4, "timeout"), d = mc_choose_free(NEL(delays), "delay"), how = mc_choose_free(3, "how it is configured");

	(void)arg;
	cli_reset();
	cli_timeout = touts[t];
	peer_delay = delays[d];
	if (t == 0 && how == 0)
		;
	else if (how == 1)
		snprintf(cli_conf, sizeof(cli_conf), "identity = tester\npassword = secret\ntimeout = %d\n", touts[t]);
	else {
		cli_arg("-o");
		cli_arg(fmt1(0, "%d", touts[t]));
		if (how == 2)
			snprintf(cli_conf, sizeof(cli_conf), "timeout = %d\nidentity = tester\npassword = secret\n", touts[t] == 5 ? 60 : 5);
	}
	if (touts[t] == 0)
		peer_delay *= 100;
	sb_adds(&cli_input, "h1\t0\tup\n\27h2\ts\t1\tdown\n");
	cli_reference();
	if (touts[t] > 0 && peer_delay >= touts[t]) {
		int i;

		/* too slow */
		cli_run();
		if (W.exit_code == 0)
			mc_fail("timeout %d: a server reacting after %.1f seconds was waited for", touts[t], peer_delay);
		if (W.log.n == 0)
			mc_fail("no message");
		if (sim_now() - 1000 > 2 * touts[t] + 2)
			mc_fail("timeout %d: it took %.1f seconds to notice", touts[t], sim_now() - 1000);
		return;
	}
	cli_run();
	cli_judge();
}

/* ------------------------------------------------ the configuration file */
enum { K_DELAY, K_ENC, K_ID, K_PW, K_PORT, K_SERVER, K_TIMEOUT, K_TLS, NKEYS };
static const char *const KEY[NKEYS] = {
	"delay", "encryption_method", "identity", "password", "port", "server", "timeout", "tls_ciphers"
};
static char VAL[NKEYS][4200];
enum { V_OK, V_REFUSE, V_UNSPEC };
static const char *ref_why;

/* What send_nsca.cfg(5) says about a file. */
static int
ref_conf(const char *t)
{
	static char line[16384];
	int verdict = V_OK, k;
	const char *p = t;

#define BAD(w) do { ref_why = w; return V_REFUSE; } while (0)
#define ODD verdict = V_UNSPEC
	for (k = 0; k < NKEYS; k++)
		VAL[k][0] = '\0';
	strcpy(VAL[K_ID], sim_hostname);
	strcpy(VAL[K_PW], "change-me");
	strcpy(VAL[K_PORT], "5668");
	strcpy(VAL[K_SERVER], "localhost");
	strcpy(VAL[K_TIMEOUT], "15");
	strcpy(VAL[K_DELAY], "0");
	ref_why = NULL;
	while (*p != '\0') {
		size_t n = 0, o = 0;
		char *q, *e, *end, quote, out[4200];
		int cont = 1;

		/* a logical line */
		while (cont && *p != '\0') {
			size_t l = strcspn(p, "\n"), m = l;

			if (p[l] == '\n' && l > 0 && p[l - 1] == '\r')
				m--;
			else if (p[l] == '\0' && l > 0 && p[l - 1] == '\r')
				ODD;
			cont = m > 0 && p[m - 1] == '\\';
			memcpy(line + n, p, m - (size_t)cont);
			n += m - (size_t)cont;
			p += l + (p[l] == '\n');
		}
		line[n] = '\0';
		for (q = line; *q == ' ' || *q == '\t'; q++)
			;
		if (*q == '\0' || *q == '#')
			continue;
		if (strchr(line, '\r'))
			ODD;
		n = strcspn(q, " \t=#\r");
		for (k = 0; k < NKEYS && (strlen(KEY[k]) != n || strncmp(q, KEY[k], n)); k++)
			;
		if (k == NKEYS)
			BAD("a line doesn't start with a known variable name");
		for (q += n; *q == ' ' || *q == '\t'; q++)
			;
		if (*q++ != '=')
			BAD("an equals sign is missing");
		while (*q == ' ' || *q == '\t')
			q++;
		if (*q == '\0' || *q == '#')
			BAD("a value is missing");
		quote = *q == '"' || *q == '\'' ? *q++ : '\0';
		for (e = q; *e != '\0'; e++) {
			if (*e == '\\') {
				if (e[1] == '\0') {
					ODD;
					break;
				}
				if (e[1] != '\\' && e[1] != '"' && e[1] != '\'')
					ODD;
				out[o++] = *++e;
			} else if (quote ? *e == quote : (*e == ' ' || *e == '\t' || *e == '#'))
				break;
			else {
				if (!quote && (*e == '"' || *e == '\''))
					ODD;
				out[o++] = *e;
			}
			if (o > 2047)
				BAD("a value is longer than 2047 characters");
		}
		out[o] = '\0';
		if (o == 2047)
			ODD;
		if (quote && *e++ != quote) {
			if (verdict == V_UNSPEC)
				return V_UNSPEC;
			BAD("a closing quotation mark is missing");
		} else {
			while (*e == ' ' || *e == '\t')
				e++;
			if (*e != '\0' && *e != '#') {
				if (verdict == V_UNSPEC)
					return V_UNSPEC;
				BAD("something follows a value");
			}
		}
		if (k == K_DELAY || k == K_TIMEOUT) {
			long num = strtol(out, &end, 10);

			if (*end != '\0' || end == out) {
				if (verdict == V_UNSPEC || out[0] == '0')
					return V_UNSPEC;
				BAD("a number is expected");
			}
			if (num < 0 || num > 2147483647L) {
				if (verdict == V_UNSPEC)
					return V_UNSPEC;
				BAD("a number is out of range");
			}
			if (out[0] < '1' || out[0] > '9')
				if (strcmp(out, "0"))
					ODD;
		}
		strcpy(VAL[k], out);
	}
	return verdict;
}

static void
conf_go(void)
{
	int v = ref_conf(cli_conf);
	char in[400];
	size_t i, l = 0;

	sb_adds(&cli_input, "h1\t0\tup\n");
	for (i = 0; cli_conf[i] && l < sizeof(in) - 6; i++)
		l += (size_t)sprintf(in + l, cli_conf[i] < ' ' || cli_conf[i] > '~' ? "\\%03o" : "%c", cli_conf[i]);
	in[l] = '\0';
	if (strlen(VAL[K_ID]) > 255 || VAL[K_PW][0] == '\0' || strlen(VAL[K_PW]) > 255)
		v = v == V_OK ? V_UNSPEC : v;
#ifdef REALSSL
	if (VAL[K_ID][0] == '\0' && v == V_OK) /* OpenSSL refuses to send empty IDs */
		v = V_UNSPEC;
#endif
	mc_note("configuration: %s -> %s", in, v == V_OK ? "fine" : v == V_UNSPEC ? "unspecified" : ref_why);
	if (v == V_REFUSE) {
		cli_must_refuse(ref_why);
		return;
	}
	peer_id = VAL[K_ID];
	peer_psk = VAL[K_PW];
	cli_timeout = v == V_UNSPEC ? 0 : atoi(VAL[K_TIMEOUT]);
	cli_reference();
	cli_run();
	if (v == V_UNSPEC)
		return;
	if (PEER[0].misbehaved)
		mc_fail("configuration \"%s\": expected identity \"%s\" and password \"%s\", got \"%s\" and \"%.*s\"", in, VAL[K_ID],
		    VAL[K_PW], W.conns[0].id, W.conns[0].psklen, W.conns[0].psk);
	if (W.nconns != 1)
		mc_fail("configuration \"%s\": no connection: %s", in, W.log.p ? W.log.p : "no message");
	if (strcmp(W.gai_host, VAL[K_SERVER]) || strcmp(W.gai_serv, VAL[K_PORT]))
		mc_fail("configuration \"%s\": connected to %s, port %s, expected: %s, port %s", in, W.gai_host, W.gai_serv,
		    VAL[K_SERVER], VAL[K_PORT]);
	cli_judge();
	mc_nontrivial(mc_hash(3, VAL[K_ID], strlen(VAL[K_ID])));
	mc_sample("configuration \"%.150s\": identity \"%s\", server %s, port %s", in, VAL[K_ID], VAL[K_SERVER], VAL[K_PORT]);
}

static void
conf_letters(const char *const *tok, int ntok, int max)
{
	int i, n = mc_choose_free(max + 1, "length");

	for (i = 0; i < n; i++)
		strcat(cli_conf, tok[mc_choose_free(ntok, "token")]);
}
static void
sc_conf(void *arg)
{
	static const char *const vt[] = { "a", " ", "\"", "'", "\\", "#", "\n", "\r\n", "\t" };
	static const char *const lt[] = { "identity", "=", " ", "\n", "x", "\"", "#", "\\\n", "\\\r\n", "port", "\t", "\\" };
	static const char *const tails[] = { "", "\n", "\r\n", "\nport = 99\n", "\r\nport = 99" };
	static const char *const bt[] = { "\"", "\\", "a" };
	static const char *const nt[] = { "0", "1", "9", "-", "+", "x", "2147483647", "4294967296", " ", ".5" };
	int th = mc_tier_thorough(), quote;

	cli_reset();
	switch (ARG) {
	case 0: /* a value */
		strcpy(cli_conf, "password = secret\nidentity =");
		conf_letters(vt, NEL(vt), th ? 6 : 5);
		if (!th)
			strcat(cli_conf, tails[mc_choose_free(2, "tail")]);
		else
			strcat(cli_conf, tails[mc_choose_free(NEL(tails), "tail")]);
		break;
	case 1: /* lines */
		conf_letters(lt, NEL(lt), th ? 6 : 5);
		break;
	case 2: /* within quotes */
		strcpy(cli_conf, mc_choose_free(2, "quotation mark") ? "password = secret\nidentity = '" : "password = secret\nidentity = \"");
		conf_letters(vt, NEL(vt), th ? 5 : 4);
		strcat(cli_conf, mc_choose_free(2, "quotation mark") ? "'" : "\"");
		strcat(cli_conf, tails[mc_choose_free(NEL(tails), "tail")]);
		break;
	case 3: /* end of file */
		strcpy(cli_conf, "password = secret\nidentity = ");
		conf_letters(bt, NEL(bt), th ? 9 : 7);
		break;
	case 5: /* numbers */
		quote = mc_choose_free(3, "quotation mark");
		sprintf(cli_conf, "identity = x\n%s = %s", mc_choose_free(2, "key") ? "timeout" : "delay", quote ? quote == 1 ? "'" : "\"" : "");
		conf_letters(nt, NEL(nt), th ? 4 : 3);
		strcat(cli_conf, quote ? quote == 1 ? "'" : "\"" : "");
		strcat(cli_conf, tails[mc_choose_free(NEL(tails), "tail")]);
		break;
	case 4: /* around an assignment */
		strcpy(cli_conf, "");
		conf_letters(lt + 2, NEL(lt) - 2, th ? 3 : 2);
		strcat(cli_conf, "identity = x");
		conf_letters(lt + 2, NEL(lt) - 2, th ? 3 : 2);
		break;
	}
	conf_go();
}

/* Lengths around the limits of the buffers. */
static void
sc_conf_len(void *arg)
{
	static const int base[] = { 511, 1023, 2047, 4095 };
	static const int vlens[] = { 1, 100, 255, 500, 1000, 2040, 2044, 2045, 2046, 2047, 2048, 2049, 2100, 4090 };
	int n = base[mc_choose_free(NEL(base), "length")] + mc_choose_free(9, "offset") - 4, i, what = mc_choose_free(9, "what");
	int cr = mc_choose_free(2, "CRLF"), nl = mc_choose_free(2, "newline"), vl;
	char *p;

	(void)arg;
	cli_reset();
	p = cli_conf;
	switch (what) {
	case 0: /* comment of n characters */
		for (*p++ = '#', i = 1; i < n; i++)
			*p++ = 'x';
		strcpy(p, cr ? "\r\nidentity = foo" : "\nidentity = foo");
		break;
	case 1: /* whitespace */
		for (i = 0; i < n - 14; i++)
			*p++ = ' ';
		strcpy(p, "identity = foo");
		break;
	case 2:
		p += sprintf(p, "identity =");
		for (i = 0; i < n - 13; i++)
			*p++ = '\t';
		strcpy(p, "foo");
		break;
	case 3: /* continuation after n characters */
		p += sprintf(p, "identity =");
		for (i = 0; i < n - 12; i++)
			*p++ = ' ';
		strcpy(p, cr ? "ab\\\r\nfoo" : "ab\\\nfoo");
		break;
	case 4: /* many continuations */
		p += sprintf(p, "identity =");
		for (i = 0; i < n - 12; i++)
			p += sprintf(p, i % 3 ? " " : cr ? "\\\r\n" : "\\\n");
		strcpy(p, "foo");
		break;
	case 5: /* trailing comment */
		p += sprintf(p, "identity = foo #");
		for (i = 16; i < n; i++)
			*p++ = '"';
		*p = '\0';
		break;
	case 6: /* long values */
		vl = vlens[mc_choose_free(NEL(vlens), "value")];
		p += sprintf(p, "encryption_method = \"");
		for (i = 0; i < vl; i++)
			*p++ = (char)('a' + i % 26);
		strcpy(p, cr ? "\"\r\nidentity = foo" : "\"\nidentity = foo");
		break;
	case 8: /* unquoted */
		vl = vlens[mc_choose_free(NEL(vlens), "value")];
		p += sprintf(p, "encryption_method = ");
		for (i = 0; i < vl; i++)
			*p++ = (char)('a' + i % 26);
		strcpy(p, cr ? "\r\nidentity = foo" : "\nidentity = foo");
		break;
	case 7: /* ... with escapes */
		vl = vlens[mc_choose_free(NEL(vlens), "value")];
		if (mc_choose_free(2, "quoted")) {
			p += sprintf(p, "encryption_method = '");
			for (i = 0; i < vl; i++)
				p += sprintf(p, "\\'");
			*p++ = '\'';
		} else {
			p += sprintf(p, "encryption_method = ");
			for (i = 0; i < vl; i++)
				p += sprintf(p, i == vl - 1 ? "\\\\" : "x");
		}
		strcpy(p, cr ? "\r\nidentity = foo" : "\nidentity = foo");
		break;
	}
	if (nl)
		strcat(p, cr ? "\r\n" : "\n");
	conf_go();
}

/* Names, and keys that look like others. */
static void
sc_conf_names(void *arg)
{
	static const int lens[] = { 1, 2, 15, 16, 17, 31, 32, 33, 62, 63, 64, 65, 100, 126, 127, 128, 129, 150, 199, 200, 250, 254, 255 };
	static char host[300];
	int what = mc_choose_free(6, "what"), l = lens[mc_choose_free(NEL(lens), "length")], dots = mc_choose_free(3, "dots"), i;
	char v[300], *p;

	(void)arg;
	cli_reset();
	sim_hostname = "simhost";
	for (i = 0; i < l; i++)
		v[i] = dots == 1 && i % 9 == 5 ? '.' : dots == 2 && i == l - 2 ? '-' : (char)('a' + i % 23);
	v[l] = '\0';
	p = cli_conf;
	switch (what) {
	case 0: p += sprintf(p, "identity = %s\npassword = secret\n", v); break;
	case 1: p += sprintf(p, "password = %s\nidentity = x\n", v); break;
	case 2: /* the default identity */
		if (l > 64)
			mc_abandon();
		sim_hostname = strcpy(host, v);
		p += sprintf(p, "password = secret\n");
		break;
	case 3: p += sprintf(p, "identity = x\nserver = %s\n", v); break;
	case 4: p += sprintf(p, "identity = x\nencryption_method = %s\n", v); break;
	case 5: /* keys which look like others */
		{
			const char *k = KEY[mc_choose_free(NKEYS, "key")];
			int n = (int)strlen(k);

			if (l > 1 || dots)
				mc_abandon();
			switch (mc_choose_free(6, "how")) {
			case 0: p += sprintf(p, "%.*s = 1\n", n - 1, k); break;
			case 1: p += sprintf(p, "%.*s = 1\n", 1, k); break;
			case 2: p += sprintf(p, "%sx = 1\n", k); break;
			case 3: p += sprintf(p, "%s = 1\n", k + 1); break;
			case 4: p += sprintf(p, "%c%s = 1\n", k[0] - 'a' + 'A', k + 1); break;
			case 5: p += sprintf(p, "%.*s = 1\n", n / 2, k); break;
			}
		}
		break;
	}
	conf_go();
	sim_hostname = "simhost";
}

/* Which settings are in effect. */
static void
sc_conf_keys(void *arg)
{
	static const char *const sv[NKEYS] = { "0", "3", "some-id", "pw", "1234", "example.org", "7", "PSK-AES256-CBC-SHA" };
	int i, m, k, o, order = mc_choose_free(3, "order"), style = mc_choose_free(3, "style");
	static char val[4][40];

	(void)arg;
	cli_reset();
	cli_conf[0] = '\0';
	m = mc_choose_free(256, "settings");
	for (i = 0; i < NKEYS; i++) {
		k = order == 0 ? i : order == 1 ? NKEYS - 1 - i : i * 5 % NKEYS;
		if (!(m >> k & 1))
			continue;
		sprintf(cli_conf + strlen(cli_conf), style == 0 ? "%s = %s\n" : style == 1 ? "\t%s=\"%s\"\r\n\n" : "%s='%s'# x\n# y\n", KEY[k],
		    sv[k]);
	}
	ref_conf(cli_conf);
	o = mc_choose_free(16, "options");
	if (o & 1) { cli_arg("-H"); strcpy(VAL[K_SERVER], "opt.example.com"); cli_arg(strcpy(val[0], VAL[K_SERVER])); }
	if (o & 2) { cli_arg("-p"); strcpy(VAL[K_PORT], "nsca"); cli_arg(strcpy(val[1], VAL[K_PORT])); }
	if (o & 4) { cli_arg("-o"); strcpy(VAL[K_TIMEOUT], "9"); cli_arg("9"); }
	if (o & 8) { cli_arg("-D"); cli_arg("0"); }
	sb_adds(&cli_input, "h1\t0\tup\n");
	peer_id = VAL[K_ID];
	peer_psk = VAL[K_PW];
	cli_timeout = atoi(VAL[K_TIMEOUT]);
	peer_script[0] = PB_OK;
	if (mc_choose_free(2, "server falls silent")) {
		peer_script[1] = PB_SILENT;
		peer_nscript = 2;
	}
	cli_reference();
	cli_run();
	if (strcmp(W.gai_host, VAL[K_SERVER]) || strcmp(W.gai_serv, VAL[K_PORT]))
		mc_fail("connected to %s, port %s, expected: %s, port %s", W.gai_host, W.gai_serv, VAL[K_SERVER], VAL[K_PORT]);
	if (strcmp(W.conns[0].id, VAL[K_ID]) || W.conns[0].psklen != (int)strlen(VAL[K_PW]) || memcmp(W.conns[0].psk, VAL[K_PW], strlen(VAL[K_PW])))
		mc_fail("identity %s, password %.*s, expected: %s, %s", W.conns[0].id, W.conns[0].psklen, W.conns[0].psk, VAL[K_ID], VAL[K_PW]);
	if (peer_nscript) {
		double t = sim_now() - 1000;

		if (W.exit_code == 0)
			mc_fail("exit status 0 although the server fell silent");
		if (t < cli_timeout - 0.5 || t > 2 * cli_timeout + 1)
			mc_fail("the client gave up after %.1f seconds, expected: %.0f", t, cli_timeout);
	} else
		cli_judge();
	mc_nontrivial(mc_hash(m, VAL, 10) + (uint64_t)o);
	mc_sample("settings %d, options %d: %s, port %s, identity %s", m, o, W.gai_host, W.gai_serv, W.conns[0].id);
}

/* A random delay, within the specified bounds. */
static void
sc_delay(void *arg)
{
	static const int delays[] = { 0, 1, 2, 5, 60, 86400 };
	static const int rnd[] = { -1, 0, 255, 1, 0x7f };
	int d = delays[mc_choose_free(NEL(delays), "delay")], how = mc_choose_free(3, "how");
	double t;

	(void)arg;
	cli_reset();
	cli_rand = rnd[mc_choose_free(NEL(rnd), "random bytes")];
	sprintf(cli_conf + strlen(cli_conf), "delay = %d\n", how == 0 ? d : how == 1 ? 0 : d + 1000);
	if (how) {
		cli_arg("-D");
		cli_arg(fmt1(0, "%d", d));
	}
	sb_adds(&cli_input, "h1\t0\tup\n");
	cli_reference();
	cli_run();
	t = W.conns[0].t_open - 1000;
	if (t < 0 || t > d)
		mc_fail("delay %d: connecting after %.3f seconds", d, t);
	cli_judge();
	mc_nontrivial((uint64_t)(t * 1000));
	mc_sample("delay %d: connecting after %.3f seconds", d, t);
}

/* ----------------------------------------------------- -d, -e and friends */
/* What send_nsca(8) says: -1 refuse, -2 unspecified */
static int
ref_char(const char *s)
{
	static const char esc[] = "a\ab\bf\fn\nr\rt\tv\v";
	size_t n = strlen(s), i;
	const char *digits = NULL;
	int base = 8, v = 0;

	if (n == 0)
		return -1;
	if (n == 1)
		return (signed char)s[0] < 0 ? -2 : s[0];
	if (s[0] == '\\') {
		if (n == 2)
			for (i = 0; esc[i]; i += 2)
				if (s[1] == esc[i])
					return esc[i + 1];
		if (n == 2 && strchr("\\'\"?", s[1]))
			return -2;
		if (s[1] == 'x' && n > 2)
			digits = s + 2, base = 16;
		else if (s[1] == 'X')
			return -2;
		else
			digits = s + 1;
	} else if (s[0] == '0') {
		if (s[1] == 'x' && n > 2)
			digits = s + 2, base = 16;
		else if (s[1] == 'X')
			return -2;
		else
			digits = s + 1;
	} else
		return -1;
	for (; *digits; digits++) {
		int c = *digits, d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99;

		if (d >= base)
			return -1;
		v = v * base + d;
		if (v > 127)
			return -1;
	}
	return n > 5 ? -2 : v;
}

static void
sc_chars(void *arg)
{
	static const char alpha[] = "\\x0172ctn4 8-XAf";
	static char s[12];
	int n, i, v, sep = ARG & 1;
	char why[64];

	n = mc_choose_free((mc_tier_thorough() ? 6 : 5), "length");
	if (n == 5 && !mc_choose_free(2, "longer"))
		n = 4;
	cli_reset();
	for (i = 0; i < n; i++)
		s[i] = alpha[mc_choose_free(n > 3 ? 12 : NEL(alpha) - 1, "character")];
	s[n] = '\0';
	cli_arg(sep ? "-e" : "-d");
	cli_arg(s);
	v = ref_char(s);
	if (!sep && (v == 0 || v == '\n' || v == '\\' || v == 23))
		v = -1;
	if (sep && v == '\t')
		v = -1;
	if (v == -1) {
		snprintf(why, sizeof(why), "%s %s is illegal", sep ? "-e" : "-d", s);
		cli_must_refuse(why);
		return;
	}
	if (sep)
		cli_sep = (char)v;
	else
		cli_delim = (char)v;
	sb_addf(&cli_input, "h1%c0%cup%ch2%cs\n%c1%cgone%c1%c2", cli_delim, cli_delim, cli_sep, cli_delim, cli_delim, cli_delim, cli_sep,
	    cli_delim);
	cli_reference();
	cli_run();
	if (v != -2)
		cli_judge();
}
/* Each single character */
static void
sc_char1(void *arg)
{
	static char s[8];
	int how = mc_choose_free(6, "notation"), c = mc_choose_free(128, "character"), sep = ARG & 1;
	char why[64];

	cli_reset();
	snprintf(s, sizeof(s), how == 0 ? "%c" : how == 1 ? "\\x%02x" : how == 2 ? "0x%02x" : how == 3 ? "\\%03o" : how == 4 ? "0%o" : "0x%X", c);
	cli_arg(sep ? "-e" : "-d");
	cli_arg(s);
	if (how == 0 && c == 0)
		mc_abandon();
	if (sep ? c == '\t' : c == 0 || c == '\n' || c == '\\' || c == 23) {
		snprintf(why, sizeof(why), "%s %s is illegal", sep ? "-e" : "-d", s);
		cli_must_refuse(why);
		return;
	}
	if (sep)
		cli_sep = (char)c;
	else
		cli_delim = (char)c;
	sb_addf(&cli_input, "h1%c0%cup%ch2%cs\n%c1%cgone\n%c", cli_delim, cli_delim, cli_sep, cli_delim, cli_delim, cli_delim, cli_sep);
	cli_go();
}

/* Both at once, and -C which ignores them. */
static void
sc_both(void *arg)
{
	static const char *const a[] = { "\t", ",", "0x2c", "x", "\\x17", "@", "\\t" };
	static const char v[] = { '\t', ',', ',', 'x', 23, '@', '\t' };
	int d = mc_choose_free(NEL(a) + 1, "delimiter"), e = mc_choose_free(NEL(a) + 1, "separator"), raw = mc_choose_free(2, "-C");
	int first = mc_choose_free(2, "order"), i;

	(void)arg;
	cli_reset();
	if (raw) {
		cli_arg("-C");
		cli_raw = 1;
	}
	for (i = 0; i < 2; i++)
		if ((i ^ first) == 0) {
			if (d < NEL(a)) { cli_arg("-d"); cli_arg(a[d]); cli_delim = v[d]; }
		} else
			if (e < NEL(a)) { cli_arg("-e"); cli_arg(a[e]); cli_sep = v[e]; }
	if (cli_delim == 23 || cli_delim == cli_sep) {
		if (raw)
			mc_abandon();
		cli_must_refuse("the delimiter is illegal");
		return;
	}
	if (raw)
		sb_addf(&cli_input, "CMD;a,b%cc%cd\nCMD;x@y", cli_sep, cli_delim);
	else
		sb_addf(&cli_input, "h1%c0%cup%ch2%cs\n%c1%cgone\n%c", cli_delim, cli_delim, cli_sep, cli_delim, cli_delim, cli_delim, cli_sep);
	cli_go();
}

static void
sc_misc(void *arg)
{
	static const char *const good[][2] = { { "-h" }, { "-V" }, { "--help" }, { "--version" } };
	static const char *const bad[][2] = { { "-x" }, { "foo" }, { "-D", "-1" }, { "-o", "-1" }, { "-d" }, { "-e" }, { "-H" }, { "-p" },
		{ "-o" }, { "-D" }, { "-d", "" }, { "-e", "" }, { "-", "x" }, { "--", "x" }, { "-q" } };
	int i = mc_choose_free(NEL(good) + NEL(bad) + 1, "arguments"), pre = mc_choose_free(3, "position");

	(void)arg;
	cli_reset();
	cli_argc = 1;
	if (i < NEL(good)) {
		if (pre == 1 && i < 2)
			cli_arg("-C");
		cli_arg(good[i][0]);
		if (pre == 2 && i < 2)
			cli_arg("-C");
		cli_run();
		if (W.exit_code != 0 || W.out.n == 0 || W.log.n != 0 || W.nconns)
			mc_fail("%s: exit status %d, %zu octets on stdout, %zu on stderr", good[i][0], W.exit_code, W.out.n, W.log.n);
		if ((i & 1) == 0 && (!strstr(W.out.p, "-H <server>") || !strstr(W.out.p, "-C") || !strstr(W.out.p, "-e <separator>")))
			mc_fail("usage information is incomplete");
		if ((i & 1) == 1 && strncmp(W.out.p, "send_nsca ", 10))
			mc_fail("version information: %s", W.out.p);
		return;
	}
	i -= NEL(good);
	if (i == NEL(bad)) {
		cli_argc = 3;
		cli_no_conf = 1;
		cli_must_refuse("there's no configuration file");
		return;
	}
	cli_argc = 3;
	if (pre == 1)
		cli_arg("-v");
	cli_arg(bad[i][0]);
	if (bad[i][1])
		cli_arg(bad[i][1]);
	if (pre == 2 && bad[i][1])
		cli_arg("-S");
	sb_adds(&cli_input, "h1\t0\tup\n");
	cli_must_refuse(bad[i][0]);
}

mc_scenario SCN[] = {
	{ "letters-results", "C21 C20", sc_letters, A(0), 0, 0 },
	{ "letters-commands", "C21 C20", sc_letters, A(1), 0, 0 },
	{ "letters-fields", "C21", sc_letters, A(2), 0, 0 },
	{ "letters-around", "C21", sc_letters, A(3), 0, 0 },
	{ "delimiters", "C21 C24", sc_delims, A(0), 0, 0 },
	{ "pieces", "C21 C20", sc_pieces, A(1), 2, 3 },
	{ "pieces-2", "C21 C20", sc_pieces, A(2), 0, 1 },
	{ "bytes", "C21 C20", sc_bytes, A(0), 2, 3 },
	{ "bytes-eintr", "C21 C20", sc_bytes, A(1), 1, 2 },
	{ "bytes-eio", "C20", sc_bytes, A(2), 1, 2 },
	{ "file", "C21 C20", sc_bytes, A(4), 1, 2 },
	{ "sizes", "C21 C22", sc_sizes, A(0), 0, 1 },
	{ "sizes-commands", "C21 C22", sc_sizes, A(2), 0, 1 },
	{ "sizes-two", "C21 C22", sc_sizes, A(1), 0, 0 },
	{ "sizes-block", "C22", sc_sizes, A(4), 1, 2 },
	{ "talk", "C20 C22", sc_talk, A(0), 2, 3 },
	{ "talk-late", "C20 C22", sc_talk, A(1), 2, 3 },
	{ "talk-block", "C20 C22", sc_talk, A(2 + 16), 2, 3 },
	{ "talk-record", "C20 C22", sc_talk, A(4), 2, 3 },
	{ "talk-1", "C20 C22", sc_talk, A(8 + 2 + 1), 3, 4 },
	{ "blank", "C20 C21", sc_blank, A(60000), 0, 0 },
	{ "many", "C20 C21", sc_many, A(38), 0, 1 },
	{ "slow", "C20 C22 C23", sc_slow, A(0), 0, 0 },
	{ "responses", "C20 C22", sc_responses, A(0), 0, 0 },
	{ "conf-value", "C23", sc_conf, A(0), 0, 0 },
	{ "conf-lines", "C23", sc_conf, A(1), 0, 0 },
	{ "conf-quoted", "C23", sc_conf, A(2), 0, 0 },
	{ "conf-end", "C23", sc_conf, A(3), 0, 0 },
	{ "conf-around", "C23", sc_conf, A(4), 0, 0 },
	{ "conf-numbers", "C23", sc_conf, A(5), 0, 0 },
	{ "conf-length", "C23", sc_conf_len, A(0), 0, 0 },
	{ "conf-names", "C23 C22", sc_conf_names, A(0), 0, 0 },
	{ "conf-keys", "C23", sc_conf_keys, A(0), 0, 0 },
	{ "delay", "C23", sc_delay, A(0), 0, 0 },
	{ "chars-d", "C24", sc_chars, A(0), 0, 0 },
	{ "chars-e", "C24", sc_chars, A(1), 0, 0 },
	{ "char-d", "C24", sc_char1, A(0), 0, 0 },
	{ "char-e", "C24", sc_char1, A(1), 0, 0 },
	{ "both", "C24", sc_both, A(0), 0, 0 },
	{ "misc", "C24", sc_misc, A(0), 0, 0 },
};
int main(int argc, char **argv) { return mc_main(argc, argv, SCN, NEL(SCN)); }
