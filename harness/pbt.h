/* A small choice-sequence property-based testing engine.
 *
 * Every random decision of a generator goes through pbt_draw(), which records
 * it. A failing case is its list of choices; shrinking edits that list and
 * re-runs the generator and the property; the shrunk list is the replay file.
 */
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>

struct pbt;

/* provided by the harness */
extern void prop_case(struct pbt* p);           /* one generated case */
extern const char prop_rule[];                  /* how cases are made, what is non-trivial */
/* optional (weak defaults in pbt.c) */
extern void prop_init(void);                    /* once in each forked child */
extern int prop_batch;                          /* cases per forked child */
extern int prop_timeout_ms;                     /* a case running longer is a hang */
extern int prop_jobs_max;
extern int prop_flaky_ok;                       /* schedule-dependent oracle: report with the
                                                   recorded history even if replay is not exact */
extern const char* pbt_mode;                    /* --mode argument, "" by default */
extern int pbt_thorough;
extern uint64_t pbt_seed;
extern const char* pbt_disabled;                /* comma list: known findings in force */

/* drawing */
uint64_t pbt_draw(struct pbt* p, uint64_t bound);       /* [0,bound), 0: 64 bits */
int64_t  pbt_range(struct pbt* p, int64_t lo, int64_t hi); /* inclusive; shrinks to lo */
bool     pbt_chance(struct pbt* p, unsigned num, unsigned den); /* shrinks to false */
size_t   pbt_weighted(struct pbt* p, const unsigned* w, size_t n);
#define  PBT_W(p, ...) pbt_weighted((p), (const unsigned[]){__VA_ARGS__}, \
             sizeof((const unsigned[]){__VA_ARGS__})/sizeof(unsigned))
unsigned pbt_size(struct pbt* p);                       /* 1..100, grows */
size_t   pbt_len(struct pbt* p, size_t max);            /* [0,max], biased small, scaled by size */
uint64_t pbt_u64(struct pbt* p);                        /* biased to interesting values */

/* reporting */
void pbt_trace(struct pbt* p, const char* fmt, ...) __attribute__((format(printf,2,3)));
void pbt_nontrivial(struct pbt* p);
void pbt_label(struct pbt* p, const char* name);
void pbt_fail(struct pbt* p, const char* tag, const char* fmt, ...)
    __attribute__((format(printf,3,4), noreturn));
#define pbt_check(p, cond, tag, ...) \
    do { if (!(cond)) pbt_fail((p), (tag), __VA_ARGS__); } while (0)
bool pbt_known(const char* id);         /* is this known finding listed? */
void pbt_pass_exit(void) __attribute__((noreturn));   /* the case passed, but the process must not go on */
void pbt_inconclusive(struct pbt* p, const char* why); /* count, no verdict; exits child */

const char* pbt_scratch(void);          /* private, initially empty directory of this child */
void pbt_heartbeat(void);
