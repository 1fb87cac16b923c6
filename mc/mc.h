/*
 * Stateless explicit-state explorer ("mc"): every execution of the code under
 * test is a sequence of choices made through mc_choose(); the explorer
 * enumerates all of them, up to a deviation budget.
 */
#ifndef MC_H
#define MC_H
#include <stddef.h>
#include <stdint.h>
#include <setjmp.h>

/* cost of taking a non-default alternative */
int mc_choose(int n, const char *label);            /* cost 1 each     */
int mc_choose_free(int n, const char *label);       /* cost 0 (data)   */
int mc_choose_cost(int n, int cost, const char *label);

void mc_fail(const char *fmt, ...) __attribute__((noreturn, format(printf, 1, 2)));
void mc_note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void mc_abandon(void) __attribute__((noreturn));     /* end the execution quietly */
void mc_state(uint64_t hash);                       /* record a visited state */
void mc_transition(int n);                          /* count environment steps */
void mc_nontrivial(uint64_t hash);                  /* record a distinct non-trivial outcome */
void mc_sample(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
int mc_replaying(void);
int mc_tier_thorough(void);
int mc_worker(void);                                /* -1 outside a worker */
uint64_t mc_hash(uint64_t h, const void *p, size_t n);
extern jmp_buf mc_jmp;                              /* target of mc_fail/mc_abandon */
extern int mc_in_exec;
extern int mc_dev_left;

typedef struct mc_scenario {
	const char *name;
	const char *props;          /* space-separated property ids */
	void (*run)(void *arg);     /* one execution */
	void *arg;
	int quick_dev, thorough_dev; /* deviation budgets; -1: not in that tier */
	int max_execs_quick;        /* 0: none */
	int fresh;                  /* 1: fork a fresh process for every execution */
	void (*init)(void *arg);    /* once per process */
} mc_scenario;

/* returns exit status: 0 ok, 1 violation */
int mc_main(int argc, char **argv, mc_scenario *sc, int n_sc);
#endif
