#ifndef CLI_H
#define CLI_H
#include "peer.h"
/* One run of send_nsca against the scripted server. */
typedef struct { char *p; size_t n; } blob;
extern sbuf cli_input;
extern size_t cli_cut[64]; extern int cli_ncut;        /* where stdin pauses */
extern char cli_conf[16384]; extern int cli_no_conf;
extern int cli_rand;                    /* what RAND_bytes() yields; -1: a pattern */
extern const char *cli_argv[24]; extern int cli_argc;
extern int cli_raw; extern char cli_delim, cli_sep;     /* what the arguments mean */
extern double cli_timeout;
extern int cli_how;
extern blob cli_expect[300]; extern int cli_nexpect, cli_expect_bad;
void cli_reset(void);
void cli_arg(const char *);
void cli_run(void);                     /* runs main() */
void cli_reference(void);               /* fills cli_expect */
void cli_judge(void);                   /* the oracle for complete sessions */
void cli_go(void);                      /* all of it */
void cli_must_refuse(const char *why);   /* run; the client must give up before it connects */
void cli_free_expect(void);
#endif
