/* Calls of the Perl and Python client libraries against the scripted server. */
#ifndef LIB_H
#define LIB_H
#include "peer.h"
typedef struct { const char *k, *v; } libarg;   /* terminated by k == NULL; v == NULL: undef */
enum { OP_NEW, OP_SVC, OP_HOST, OP_CMD, OP_DEL, OP_GET, OP_RAW, OP_INIT };

/* the glue to the interpreter */
void glue_start(void);
const char *glue_call(int op, int obj, const libarg *, int style);  /* NULL or an error message */

extern int lib_new_style;                /* Perl: pass the tags as a hash reference */
extern double lib_timeout;              /* of the current object */
extern int lib_nobj;
extern const char *lib_who[8][2];       /* ID and password of each object */
extern int lib_late;                    /* the server may be too slow */
void lib_pause(double);
extern int lib_wrong;                   /* the handshake may fail */
extern int lib_trouble;                 /* something went wrong during the last call */
void lib_reset(void);
const char *lib_new(int obj, const libarg *);           /* must succeed */
const char *lib_call(int op, int obj, const libarg *, const char *expect, size_t n); /* call and judge; expect starts with \1 for a timestamp */
const char *lib_init(int obj, const libarg *, int op);    /* another way to create (OP_RAW) or to initialise again (OP_INIT) */
void lib_finish(void);                  /* destroys the objects; final checks */
void lib_idle(int what);                /* the server acts between two calls: PB_FIN, PB_RST, PB_CN */
#endif
