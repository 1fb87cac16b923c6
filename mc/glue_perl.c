#include <EXTERN.h>
#include <perl.h>
#include <XSUB.h>
#include <stdio.h>
#include <stdlib.h>
#undef malloc
#undef free
typedef struct { const char *k, *v; } libarg;
static PerlInterpreter *my_perl;
EXTERN_C void boot_Net__NSCAng__Client(pTHX_ CV *);
static const char *const opn[] = { "new", "svc", "host", "cmd", "del", "get" };

static void
xs_init(pTHX)
{
	newXS("Net::NSCAng::Client::bootstrap", boot_Net__NSCAng__Client, __FILE__);
}
static const char code[] =
    "use lib '" REPO_PERL "'; use Net::NSCAng::Client; our (@O, $T);\n"
    "sub drv { my ($op, $i, $style, %a) = @_; my $ok = eval {\n"
    " if ($op eq 'new') { my ($h, $id, $p) = delete @a{qw(host identity psk)};\n"
    "   $O[$i] = Net::NSCAng::Client->new($h, $id, $p, $style ? \\%a : %a); }\n"
    " elsif ($op eq 'svc') { my ($r, $o) = delete @a{qw(return_code plugin_output)}; $O[$i]->svc_result($r, $o, $style ? \\%a : %a); }\n"
    " elsif ($op eq 'host') { my ($r, $o) = delete @a{qw(return_code plugin_output)}; $O[$i]->host_result($r, $o, $style ? \\%a : %a); }\n"
    " elsif ($op eq 'cmd') { $O[$i]->command($a{command}); }\n"
    " elsif ($op eq 'get') { my $p = 'T' . ++$T; eval \"package $p; use Net::NSCAng::Client '$a{import}'; 1\" or die $@; die $p->can($a{name})->(), \"\\n\"; }\n"
    " elsif ($op eq 'del') { undef $O[$i]; }\n"
    " 1 }; return $ok ? undef : \"$@\"; }\n1;\n";

void
glue_start(void)
{
	static char *av[] = { "x", "-e", "0", NULL }, **pa = av, *env[] = { "PERL_HASH_SEED=0", NULL }, **pe = env;
	int n = 3;

	setenv("PERL_HASH_SEED", "0", 1);
	PERL_SYS_INIT3(&n, &pa, &pe);
	my_perl = perl_alloc();
	perl_construct(my_perl);
	PL_exit_flags |= PERL_EXIT_DESTRUCT_END;
	if (perl_parse(my_perl, xs_init, 3, av, NULL) || perl_run(my_perl)) {
		fprintf(stderr, "cannot start Perl\n");
		exit(2);
	}
	eval_pv(code, FALSE);
	if (SvTRUE(ERRSV)) {
		fprintf(stderr, "cannot load the Perl module: %s\n", SvPV_nolen(ERRSV));
		exit(2);
	}
}

const char *
glue_call(int op, int obj, const libarg *a, int style)
{
	static char *msg;
	char num[20];
	const char *r = NULL;
	int n;
	SV *sv;
	dSP;

	free(msg);
	msg = NULL;
	ENTER;
	SAVETMPS;
	PUSHMARK(SP);
	EXTEND(SP, 40);
	PUSHs(sv_2mortal(newSVpv(opn[op], 0)));
	PUSHs(sv_2mortal(newSViv(obj)));
	PUSHs(sv_2mortal(newSViv(style)));
	for (; a && a->k; a++) {
		PUSHs(sv_2mortal(newSVpv(a->k, 0)));
		PUSHs(a->v ? sv_2mortal(newSVpv(a->v, 0)) : &PL_sv_undef);
	}
	PUTBACK;
	n = call_pv("main::drv", G_SCALAR);
	SPAGAIN;
	if (n == 1) {
		sv = POPs;
		if (SvOK(sv))
			r = msg = strdup(SvPV_nolen(sv));
	}
	PUTBACK;
	FREETMPS;
	LEAVE;
	return r;
}
