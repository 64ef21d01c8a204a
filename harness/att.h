/* Generated transactions with attempts: every transaction is a list of attempts, each with
 * generated operations and an ending. The harness defines `struct aop`, ATT_MAXOPS and the
 * att_* callbacks; the model of the committed state advances only on commit. */
#pragma once
#include "pbt.h"
#include <picotm/picotm.h>
#include <picotm/picotm-module.h>

enum { E_COMMIT, E_ERROR, E_ERRNO, E_CONFLICT, E_IRREV, E_RECOVER_RESTART, E_FAILOP };
static const char* const att_endname[] = { "commit", "error", "errno", "conflict", "irrevocable",
    "recover+restart", "failing operation" };
enum { ATT_MAX = 8 };
struct attempt { int nops; struct aop op[ATT_MAXOPS]; int end; };

static struct attempt att[ATT_MAX];
static int natt;
static struct pbt* P;
static volatile int att_cur, att_recovered;
static volatile int att_exp_status = -1;    /* the current operation must fail with this status */
static volatile long att_exp_val;           /* error code or errno; -1: any */
static volatile int att_may_fail;           /* the current operation may fail this way or succeed */
static volatile int att_failed;             /* the transaction ended by a failing operation */
static volatile int att_redo;               /* the current operation may restart the attempt irrevocably */
static volatile int att_noundo;             /* an operation without undo took place: commit */

/* provided by the harness */
static void att_start(void);                /* model view = committed model */
static void att_op(struct aop* o);          /* execute + compare */
static void att_finish_body(void);          /* last checks within the transaction */
static void att_committed(void);            /* committed model = view; compare real state */
static void att_rolledback(void);           /* real state == committed model? */

static void att_expect(int status, long val) { att_exp_status = status; att_exp_val = val; att_may_fail = 0; }
static void att_allow(int status, long val) { att_exp_status = status; att_exp_val = val; att_may_fail = 1; }

__attribute__((noinline)) static void att_run(void)
{
    static volatile int i;
    static volatile int att_redone;
    att_cur = -1;
    att_recovered = att_failed = att_redo = att_redone = 0;
#ifdef ATT_BEFORE
    ATT_BEFORE();
#endif
    picotm_begin
        if (att_redo && picotm_is_irrevocable()) { att_redo = 0; --att_cur; att_redone = 1; }
        ++att_cur;
        att_noundo = 0;
        if (att_cur >= natt)
            pbt_fail(P, "retries", "transaction executed more often than its endings explain (%d)", att_cur);
        if (att_cur > 0 || att_redone) att_rolledback();
        att_start();
        struct attempt* a = &att[att_cur];
        for (i = 0; i < a->nops; ++i) {
            att_exp_status = -1;
            att_redo = 0;
            att_op(&a->op[i]);
            att_redo = 0;
            if (att_exp_status != -1 && !att_may_fail)
                pbt_fail(P, "missed-error", "operation succeeded, expected failure with status %d value %ld",
                         att_exp_status, att_exp_val);
        }
        att_exp_status = -1;
        att_finish_body();
        switch (att_noundo ? E_COMMIT : a->end) {
        case E_ERROR: att_expect(PICOTM_ERROR_CODE, PICOTM_GENERAL_ERROR);
                      picotm_recover_from_error_code(PICOTM_GENERAL_ERROR); break;
        case E_ERRNO: case E_RECOVER_RESTART: att_expect(PICOTM_ERRNO, 4711); picotm_recover_from_errno(4711); break;
        case E_CONFLICT: if (!picotm_is_irrevocable()) picotm_resolve_conflict(NULL); break;
        case E_IRREV: picotm_irrevocable(); break;
        }
    picotm_commit
        att_recovered = 1;
#ifdef ATT_RECOVERY
        ATT_RECOVERY();
#endif
        int st = picotm_error_status();
        long val = st == PICOTM_ERROR_CODE ? (long)picotm_error_as_error_code() : st == PICOTM_ERRNO ? picotm_error_as_errno() : 0;
        if (att_exp_status == -1)
            pbt_fail(P, "unexpected-error", "attempt %d failed unexpectedly: status %d value %ld", att_cur, st, val);
        if (att_exp_status >= 0 && picotm_error_is_non_recoverable())
            pbt_fail(P, "recoverable", "attempt %d: status %d value %ld is reported as not recoverable", att_cur, st, val);
        if (att_exp_status == -2) ; else if (st != att_exp_status || (att_exp_val != -1 && val != att_exp_val))
            pbt_fail(P, "wrong-error", "attempt %d reported status %d value %ld, expected status %d value %ld", att_cur,
                     st, val, att_exp_status, att_exp_val);
        if (att_cur >= 0 && att_cur < natt && att[att_cur].end != E_ERROR && att[att_cur].end != E_ERRNO && att[att_cur].end != E_RECOVER_RESTART)
            att_failed = 1;
        if (att_cur >= 0 && att[att_cur].end == E_RECOVER_RESTART && att_cur + 1 < natt && i >= att[att_cur].nops) {
            att_recovered = 0;
            picotm_restart();
        }
    picotm_end
#ifdef ATT_AFTER
    ATT_AFTER();
#endif
    if (att_recovered) { att_rolledback(); pbt_label(P, "rolled-back"); }
    else { att_committed(); pbt_label(P, "committed"); }
}

#ifndef ATT_NOPS
#define ATT_NOPS(p) (1 + pbt_len(p, ATT_MAXOPS - 1))
#endif
/* generates attempts; gen draws the operations */
__attribute__((unused))
static void att_gen(struct pbt* p, void (*gen)(struct pbt*, struct aop*), const unsigned* endw)
{
    static const unsigned w[] = { 8, 2, 2, 3, 2, 1 };
    bool irrev = false;
    natt = 0;
    for (;;) {
        struct attempt* a = &att[natt];
        a->nops = ATT_NOPS(p);
        for (int i = 0; i < a->nops; ++i) gen(p, &a->op[i]);
        a->end = natt < ATT_MAX - 2 ? (int)pbt_weighted(p, endw ? endw : w, 6) : E_COMMIT;
        if (irrev && (a->end == E_IRREV || a->end == E_CONFLICT)) a->end = E_COMMIT;
        if (a->end == E_IRREV) irrev = true;
        if (a->end == E_RECOVER_RESTART) irrev = false;
        ++natt;
        if (a->end != E_CONFLICT && a->end != E_IRREV && a->end != E_RECOVER_RESTART) break;
    }
    if (natt > 1) pbt_label(p, "multi-attempt");
}
