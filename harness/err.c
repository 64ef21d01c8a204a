/* C09: errors reach the recovery code exactly as they were raised. */
#include "mt.h"
#include <signal.h>
#include <picotm/picotm.h>
#include <picotm/picotm-error.h>
#include <picotm/picotm-module.h>
#include <picotm/picotm-lib-rwlock.h>

const char prop_rule[] =
    "Error objects: up to 60 generated set, clear, mark, describe and query operations on 4 error objects (copies "
    "among them included) against a model. Transactions: 1-4 threads run 1-4 transactions of up to 8 attempts; each "
    "attempt raises a generated error (code, errno of any value, signal information of random bytes, conflict, "
    "request for irrevocability) directly, through an error object, or from a failing begin, preparation, "
    "application, event, undo or finish call-back; the recovery code must see exactly that error before and after "
    "the other threads have raised theirs. Non-trivial: an error object changed kind twice, resp. a recovery was "
    "checked after an attempt had failed differently or while another thread raised errors.";

enum { MAXT = 4, MAXTX = 4, MAXATT = 9, NMODS = 3, NLOCK = 3 };
enum { K_COMMIT, K_DIRECT, K_OBJECT, K_CALLBACK };
enum { CB_NONE, CB_BEGIN, CB_PREP, CB_APPLY, CB_AEV, CB_UNDO, CB_UEV, CB_FINISH };

struct err { int status; bool nonrec; const char* desc; long val; siginfo_t info; };
struct att { int kind, cb, mod; struct err e; bool restart; int nev; };

static struct pbt* P;
static struct att att[MAXT][MAXTX][MAXATT];
static int natt[MAXT][MAXTX], ntx[MAXT];
static volatile int cur[MAXT], armed[MAXT], begun[MAXT], recovered[MAXT], attempts[MAXT];
static volatile int nraised[MAXT];
static struct picotm_rwlock lock[NLOCK];
static const char* const text[] = { "one", "two", "", NULL };
static volatile bool mixed;

/* values of errno and codes */
static long gen_val(struct pbt* p, int status)
{
    switch (status) {
    case PICOTM_ERROR_CODE: return pbt_draw(p, 4);
    case PICOTM_ERRNO: { long v = pbt_chance(p, 1, 3) ? (int)pbt_u64(p) : (long)pbt_range(p, 1, 133); return (int)v; }
    case PICOTM_CONFLICTING: return pbt_draw(p, NLOCK + 1);
    }
    return 0;
}

static void gen_err(struct pbt* p, struct err* e, int status)
{
    memset(e, 0, sizeof *e);
    e->status = status;
    e->val = gen_val(p, status);
    if (status == PICOTM_SIGINFO_T) {
        unsigned char* b = (unsigned char*)&e->info;
        uint64_t x = pbt_draw(p, 0) | 1;
        for (size_t i = 0; i < sizeof e->info; ++i) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; b[i] = x >> 32; }
    }
}

static void set_error(struct picotm_error* o, const struct err* e)
{
    switch (e->status) {
    case PICOTM_CONFLICTING: picotm_error_set_conflicting(o, e->val ? &lock[e->val - 1] : NULL); break;
    case PICOTM_REVOCABLE: picotm_error_set_revocable(o); break;
    case PICOTM_ERROR_CODE: picotm_error_set_error_code(o, (enum picotm_error_code)e->val); break;
    case PICOTM_ERRNO: picotm_error_set_errno(o, (int)e->val); break;
    case PICOTM_SIGINFO_T: picotm_error_set_siginfo_t(o, &e->info); break;
    }
}

/* error objects */

static void check_object(struct pbt* p, int i, const struct picotm_error* o, const struct err* e, const char* after)
{
#define CHK(cond, ...) do { if (!(cond)) pbt_fail(p, "object", "object %d after %s: " __VA_ARGS__); } while (0)
    CHK(picotm_error_is_set(o) == (e->status != 0), "picotm_error_is_set() is %d", i, after, picotm_error_is_set(o));
    CHK(picotm_error_is_conflicting(o) == (e->status == PICOTM_CONFLICTING), "picotm_error_is_conflicting() is %d", i, after, picotm_error_is_conflicting(o));
    CHK(picotm_error_is_revocable(o) == (e->status == PICOTM_REVOCABLE), "picotm_error_is_revocable() is %d", i, after, picotm_error_is_revocable(o));
    /* a request for irrevocability is not an error of the program either way */
    if (e->status != PICOTM_REVOCABLE)
        CHK(picotm_error_is_error(o) == (e->status && e->status != PICOTM_CONFLICTING), "picotm_error_is_error() is %d", i, after, picotm_error_is_error(o));
    CHK((int)o->status == e->status, "status is %d, expected %d", i, after, (int)o->status, e->status);
    CHK(o->is_non_recoverable == e->nonrec, "is_non_recoverable is %d", i, after, o->is_non_recoverable);
    CHK(picotm_error_get_description(o) == e->desc, "description %p, expected %p", i, after, (void*)picotm_error_get_description(o), (void*)e->desc);
    switch (e->status) {
    case PICOTM_CONFLICTING: CHK(o->value.conflicting_lock == (e->val ? &lock[e->val - 1] : NULL), "wrong conflicting lock", i, after); break;
    case PICOTM_ERROR_CODE: CHK((long)o->value.error_hint == e->val, "code %d, expected %ld", i, after, (int)o->value.error_hint, e->val); break;
    case PICOTM_ERRNO: CHK(o->value.errno_hint == e->val, "errno %d, expected %ld", i, after, o->value.errno_hint, e->val); break;
    case PICOTM_SIGINFO_T: CHK(!memcmp(&o->value.siginfo_t_info, &e->info, sizeof e->info), "wrong signal information", i, after); break;
    }
}

static void object_case(struct pbt* p)
{
    static const struct picotm_error init = PICOTM_ERROR_INITIALIZER;
    struct picotm_error* o[4];
    struct err m[4];
    int changes = 0;
    for (int i = 0; i < 4; ++i) {
        o[i] = malloc(sizeof *o[i]);
        if (pbt_chance(p, 1, 2)) *o[i] = init;
        else { memset(o[i], 0xa5, sizeof *o[i]); picotm_error_clear(o[i]); }
        memset(&m[i], 0, sizeof m[i]);
        check_object(p, i, o[i], &m[i], "initialisation");
    }
    int n = 1 + pbt_len(p, 60);
    for (int k = 0; k < n; ++k) {
        int i = pbt_draw(p, 4);
        const char* what = "";
        switch (PBT_W(p, 6, 1, 2, 2, 1)) {
        case 0: {
            static const int st[] = { PICOTM_ERROR_CODE, PICOTM_ERRNO, PICOTM_SIGINFO_T, PICOTM_CONFLICTING, PICOTM_REVOCABLE };
            gen_err(p, &m[i], st[pbt_draw(p, 5)]);
            set_error(o[i], &m[i]);
            pbt_trace(p, "set %d: status %d value %ld; ", i, m[i].status, m[i].val);
            what = "setting an error";
            ++changes;
            break;
        }
        case 1: picotm_error_clear(o[i]); memset(&m[i], 0, sizeof m[i]); pbt_trace(p, "clear %d; ", i); what = "clearing"; break;
        case 2: if (m[i].status) { picotm_error_mark_as_non_recoverable(o[i]); m[i].nonrec = true; pbt_trace(p, "mark %d; ", i); what = "marking as non-recoverable"; } break;
        case 3: m[i].desc = text[pbt_draw(p, 4)]; picotm_error_set_description(o[i], m[i].desc); pbt_trace(p, "describe %d; ", i); what = "describing"; break;
        case 4: { int j = pbt_draw(p, 4); if (i != j) { *o[i] = *o[j]; m[i] = m[j]; } pbt_trace(p, "copy %d=%d; ", i, j); what = "copying"; break; }
        }
        for (int j = 0; j < 4; ++j) check_object(p, j, o[j], &m[j], what);
    }
    for (int i = 0; i < 4; ++i) free(o[i]);
    if (changes > 2) pbt_nontrivial(p);
}

/* transactions */

struct mod { int t, id; unsigned long num; } mod[MAXT][NMODS];

static struct att* A(int t, int x) { return &att[t][x][cur[t]]; }
static volatile int tx_of[MAXT];

static void fail_cb(int cb, void* d, struct picotm_error* e)
{
    struct mod* m = d;
    struct att* a = A(m->t, tx_of[m->t]);
    if (!armed[m->t] || a->kind != K_CALLBACK || a->cb != cb || a->mod != m->id) return;
    armed[m->t] = 0;
    nraised[m->t] = nraised[m->t] + 1;
    set_error(e, &a->e);
}
static void cb_begin(void* d, struct picotm_error* e) { fail_cb(CB_BEGIN, d, e); }
static void cb_prep(void* d, int i, struct picotm_error* e) { (void)i; mt_point(); fail_cb(CB_PREP, d, e); }
static void cb_apply(void* d, struct picotm_error* e) { fail_cb(CB_APPLY, d, e); }
static void cb_undo(void* d, struct picotm_error* e) { fail_cb(CB_UNDO, d, e); }
static void cb_aev(uint16_t h, uintptr_t u, void* d, struct picotm_error* e) { (void)h; (void)u; fail_cb(CB_AEV, d, e); }
static void cb_uev(uint16_t h, uintptr_t u, void* d, struct picotm_error* e) { (void)h; (void)u; fail_cb(CB_UEV, d, e); }
static void cb_finish(void* d, struct picotm_error* e) { fail_cb(CB_FINISH, d, e); }
static const struct picotm_module_ops ops = { cb_begin, cb_prep, cb_apply, cb_undo, cb_aev, cb_uev, cb_finish, NULL };

static void check_recovery(int t, const struct err* e, bool nonrec, const char* when)
{
    int st = picotm_error_status();
    if (st != e->status) pbt_fail(P, "status", "thread %d, %s: an error of status %d was raised, the recovery code sees %d", t, when, e->status, st);
    if (picotm_error_is_non_recoverable() != nonrec) pbt_fail(P, "recoverable", "thread %d, %s: picotm_error_is_non_recoverable() is %d, status %d", t, when, picotm_error_is_non_recoverable(), st);
    switch (st) {
    case PICOTM_ERROR_CODE:
        if ((long)picotm_error_as_error_code() != e->val) pbt_fail(P, "value", "thread %d, %s: error code %ld was raised, the recovery code sees %d", t, when, e->val, (int)picotm_error_as_error_code());
        break;
    case PICOTM_ERRNO:
        if (picotm_error_as_errno() != e->val) pbt_fail(P, "value", "thread %d, %s: errno %ld was raised, the recovery code sees %d", t, when, e->val, picotm_error_as_errno());
        break;
    case PICOTM_SIGINFO_T:
        if (memcmp(picotm_error_as_siginfo_t(), &e->info, sizeof e->info)) pbt_fail(P, "value", "thread %d, %s: the signal information differs from the raised one", t, when);
        break;
    }
}

static bool restarts(const struct att* a)       /* ends with another attempt, not with recovery */
{
    if (a->kind == K_COMMIT) return false;
    if (a->kind == K_CALLBACK && a->cb != CB_PREP) return false;
    return a->e.status == PICOTM_CONFLICTING || a->e.status == PICOTM_REVOCABLE;
}

static bool fatal(const struct att* a)
{
    return (a->kind == K_CALLBACK && a->cb >= CB_APPLY) || (a->kind == K_OBJECT && a->e.nonrec);
}

static __attribute__((noinline)) void run_tx(int t, int x)
{
    struct att* const all = att[t][x];
    cur[t] = -1;
    attempts[t] = 0;
    tx_of[t] = x;
    /* a failing begin must be known in advance */
    cur[t] = 0;
    armed[t] = all[0].kind == K_CALLBACK && all[0].cb == CB_BEGIN;
    begun[t] = recovered[t] = 0;
    picotm_begin
        if (begun[t]) {         /* restarted by picotm: the next attempt */
            if (!restarts(A(t, x))) pbt_fail(P, "restart", "thread %d: transaction restarted after an attempt of kind %d, status %d", t, A(t, x)->kind, A(t, x)->e.status);
            int irrev = A(t, x)->e.status == PICOTM_REVOCABLE;
            cur[t] = cur[t] + 1;
            if (irrev && !picotm_is_irrevocable()) pbt_fail(P, "revocable", "thread %d: not irrevocable after a request for irrevocability", t);
            attempts[t] = attempts[t] + 1;
        }
        if (picotm_number_of_restarts() != (unsigned long)attempts[t]) pbt_fail(P, "restarts", "thread %d: %lu restarts counted, %d seen", t, picotm_number_of_restarts(), attempts[t]);
        begun[t] = 1;
        mt_point();
        struct att* a = A(t, x);
        for (int i = 0; i < a->nev; ++i) {
            struct picotm_error e = PICOTM_ERROR_INITIALIZER;
            picotm_append_event(mod[t][i % NMODS].num, i, i, &e);
            if (picotm_error_is_set(&e)) pbt_fail(P, "append", "thread %d: event rejected", t);
        }
        if (a->kind == K_DIRECT || a->kind == K_OBJECT) {
            nraised[t] = nraised[t] + 1;
            if (a->kind == K_OBJECT) {
                struct picotm_error e = PICOTM_ERROR_INITIALIZER;
                set_error(&e, &a->e);
                if (a->e.nonrec) picotm_error_mark_as_non_recoverable(&e);
                picotm_error_set_description(&e, a->e.desc);
                picotm_recover_from_error(&e);
            } else switch (a->e.status) {
            case PICOTM_CONFLICTING: picotm_resolve_conflict(a->e.val ? &lock[a->e.val - 1] : NULL); break;
            case PICOTM_REVOCABLE: picotm_irrevocable(); break;
            case PICOTM_ERROR_CODE: picotm_recover_from_error_code((enum picotm_error_code)a->e.val); break;
            case PICOTM_ERRNO: picotm_recover_from_errno((int)a->e.val); break;
            case PICOTM_SIGINFO_T: picotm_recover_from_siginfo_t(&a->e.info); break;
            }
            pbt_fail(P, "return", "thread %d: raising an error of status %d returned to the transaction", t, a->e.status);
        }
        if (a->kind == K_CALLBACK) {
            armed[t] = 1;
            if (a->cb == CB_UNDO || a->cb == CB_UEV) picotm_resolve_conflict(NULL);     /* the retry's roll-back fails */
        }
    picotm_commit
        struct att* a = A(t, x);
        const char* how = a->kind == K_DIRECT ? "raised directly" : a->kind == K_OBJECT ? "raised as an object" : "returned by a call-back";
        if (a->kind == K_COMMIT || restarts(a)) pbt_fail(P, "unexpected", "thread %d: recovery with status %d from an attempt that raises no error", t, (int)picotm_error_status());
        if (armed[t]) pbt_fail(P, "unexpected", "thread %d: recovery with status %d before the call-back failed", t, (int)picotm_error_status());
        check_recovery(t, &a->e, fatal(a), how);
        int before = 0, after = 0;
        for (int i = 0; i < MAXT; ++i) if (i != t) before += nraised[i];
        mt_point();
        for (int i = 0; i < MAXT; ++i) if (i != t) after += nraised[i];
        check_recovery(t, &a->e, fatal(a), "later in recovery");
        if (attempts[t] || nraised[t] > 1 || before != after) mixed = true;
        recovered[t] = 1;
        if (fatal(a)) { pbt_label(P, "fatal"); (pbt_nontrivial)(P); pbt_pass_exit(); }
        pbt_label(P, "recovery");
        if (a->restart && cur[t] + 1 < natt[t][x]) {
            cur[t] = cur[t] + 1;
            attempts[t] = attempts[t] + 1;
            /* a restart after a failing begin counts as a restart, too, unless the transaction never began */
            armed[t] = A(t, x)->kind == K_CALLBACK && A(t, x)->cb == CB_BEGIN;
            begun[t] = recovered[t] = 0;
            picotm_restart();
        }
    picotm_end
    if (!recovered[t] && A(t, x)->kind != K_COMMIT)
        pbt_fail(P, "ignored", "thread %d: transaction committed although an error of status %d was raised (kind %d, call-back %d)", t, A(t, x)->e.status, A(t, x)->kind, A(t, x)->cb);
}

static void thread(int t)
{
    for (int i = 0; i < NMODS; ++i) {
        struct picotm_error e = PICOTM_ERROR_INITIALIZER;
        mod[t][i].t = t;
        mod[t][i].id = i;
        mod[t][i].num = picotm_register_module(&ops, &mod[t][i], &e);
        if (picotm_error_is_set(&e)) pbt_fail(P, "register", "module rejected");
    }
    for (int x = 0; x < ntx[t]; ++x) { run_tx(t, x); mt_point(); }
    picotm_release();
}

void prop_case(struct pbt* p)
{
    P = p;
    if (pbt_chance(p, 1, 5)) { object_case(p); return; }
    int nt = 1 + pbt_draw(p, MAXT);
    bool single = nt == 1, over = false;
    mixed = false;
    for (int t = 0; t < MAXT; ++t) nraised[t] = cur[t] = armed[t] = 0;
    for (int t = 0; t < nt; ++t) {
        ntx[t] = 1 + pbt_len(p, MAXTX - 1);
        pbt_trace(p, "thread %d:", t);
        for (int x = 0; x < ntx[t]; ++x) {
            bool irrev = false, first = true;
            int n = 0;
            pbt_trace(p, " {");
            for (;;) {
                struct att* a = &att[t][x][n++];
                memset(a, 0, sizeof *a);
                a->nev = pbt_draw(p, 4);
                a->kind = n >= MAXATT || over ? K_COMMIT : (int)PBT_W(p, 2, 4, 4, 3);
                static const int st[] = { PICOTM_ERROR_CODE, PICOTM_ERRNO, PICOTM_SIGINFO_T, PICOTM_CONFLICTING, PICOTM_REVOCABLE };
                int s = st[PBT_W(p, 3, 3, 3, 3, single ? 2 : 0)];
                if (a->kind == K_CALLBACK) {
                    a->cb = PBT_W(p, 0, 3, 4, 1, 1, 1, 1, 1);
                    a->mod = pbt_draw(p, NMODS);
                    if (a->cb == CB_BEGIN && !first) a->cb = CB_PREP;
                    if (a->cb >= CB_APPLY && (!single || !pbt_chance(p, 1, 3))) a->cb = CB_PREP;
                    if (irrev && (a->cb == CB_UNDO || a->cb == CB_UEV)) a->cb = CB_PREP;
                    if (a->cb == CB_AEV || a->cb == CB_UEV) a->nev += NMODS;
                    if (a->cb >= CB_APPLY && s < PICOTM_ERROR_CODE) s = PICOTM_ERRNO;
                    if (a->cb != CB_BEGIN && irrev && s < PICOTM_ERROR_CODE) s = PICOTM_ERROR_CODE;
                }
                if (a->kind != K_CALLBACK && irrev && s < PICOTM_ERROR_CODE) s = PICOTM_ERRNO;
                gen_err(p, &a->e, s);
                if (a->kind == K_OBJECT) {
                    a->e.desc = text[pbt_draw(p, 4)];
                    if (single && s >= PICOTM_ERROR_CODE) a->e.nonrec = pbt_chance(p, 1, 12);
                }
                if (fatal(a)) over = true;
                bool again = restarts(a);
                a->restart = !again && a->kind != K_COMMIT && pbt_chance(p, 1, 2);
                pbt_trace(p, " %s%s%d:%ld%s", a->kind == K_COMMIT ? "commit" : a->kind == K_DIRECT ? "raise " : a->kind == K_OBJECT ? "object " : "callback ",
                          a->kind == K_CALLBACK ? (const char*[]){ "", "begin ", "prepare ", "apply ", "event ", "undo ", "undo-event ", "finish " }[a->cb] : "", a->e.status, a->e.val, a->restart ? " restart" : "");
                if (again && s == PICOTM_REVOCABLE) irrev = true;
                else irrev = false;     /* (conflicts are not raised when irrevocable) */
                first = a->restart;
                if (!again && !a->restart) break;
            }
            natt[t][x] = n;
            pbt_trace(p, " }");
        }
        pbt_trace(p, "; ");
    }
    uint8_t sched[200];
    int ns = single ? 0 : 20 + pbt_draw(p, 180);
    for (int i = 0; i < ns; ++i) sched[i] = pbt_chance(p, 1, 2) ? 1 + pbt_draw(p, 3) : 0;
    mt_run(nt, thread, sched, ns);
    if (mixed) (pbt_nontrivial)(p);
}
