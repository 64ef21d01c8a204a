/* C06: reader/writer locks and per-transaction lock states. Modes: sched, stress. */
#define MT_MAX 48
#include "mt.h"
#include "vclock.h"
#include <picotm/picotm.h>
#include <picotm/picotm-error.h>
#include <picotm/picotm-lib-rwlock.h>
#include <picotm/picotm-lib-rwstate.h>
#include <picotm/picotm-module.h>

int prop_batch = 100;
int prop_timeout_ms = 20000;
int prop_flaky_ok = 1;
const char prop_rule[] =
    "sched: 1-30 threads (each within a transaction, of which some are older than a second and thus wait for "
    "locks) run generated programs of read-lock, write-lock/upgrade and unlock operations on 1-3 locks under a "
    "generated schedule; every outcome is compared with a reader/writer model. stress: 2-40 free-running "
    "threads do the same, in part mostly readers of one lock; ownership counters maintained inside the critical sections expose any overlap. At "
    "the end of every case all locks must be available to readers and writers. Non-trivial: an acquisition "
    "conflicted and a later one on the same lock succeeded.";

enum { MAXL = 3, MAXOPS = 24 };
enum { O_RD, O_WR, O_UNLOCK, O_ALL };
struct op { uint8_t k, l; };
static struct { int n; bool old; struct op op[MAXOPS]; } prog[MT_MAX];
static int nthr, nlocks, reps;
static struct picotm_rwlock lock[MAXL];
static volatile int readers[MAXL], writers[MAXL];       /* model resp. shadow */
static volatile long conflicts, after_conflict;
static volatile int seen_conflict[MAXL];
static struct pbt* P;
static uint8_t sched[800];

static void check_error(const struct picotm_error* e, int l)
{
    if (e->status != PICOTM_CONFLICTING)
        pbt_fail(P, "error-kind", "failed acquisition reported status %d instead of a conflict", e->status);
    if (e->value.conflicting_lock && e->value.conflicting_lock != &lock[l])
        pbt_fail(P, "error-lock", "conflict names another lock");
    __atomic_add_fetch(&conflicts, 1, __ATOMIC_RELAXED);
    seen_conflict[l] = 1;
}

/* one operation; exact: one thread at a time, readers/writers are a model */
static void step(int t, struct picotm_rwstate* st, struct op o, bool exact)
{
    int l = o.l;
    struct picotm_error e = PICOTM_ERROR_INITIALIZER;
    enum picotm_rwstate_status s0 = picotm_rwstate_get_status(&st[l]);
    if (o.k == O_UNLOCK) {
        if (s0 == PICOTM_RWSTATE_RDLOCKED) __atomic_sub_fetch(&readers[l], 1, __ATOMIC_SEQ_CST);
        if (s0 == PICOTM_RWSTATE_WRLOCKED) __atomic_sub_fetch(&writers[l], 1, __ATOMIC_SEQ_CST);
        picotm_rwstate_unlock(&st[l], &lock[l]);
        if (picotm_rwstate_get_status(&st[l]) != PICOTM_RWSTATE_UNLOCKED) pbt_fail(P, "state", "still locked after unlock");
        return;
    }
    int want = -1;          /* 0 conflict, 1 success, -1 either */
    if (o.k == O_RD && s0 == PICOTM_RWSTATE_UNLOCKED) want = writers[l] ? 0 : readers[l] < 14 ? 1 : -1;
    else if (o.k == O_RD) want = 1;
    else if (s0 == PICOTM_RWSTATE_WRLOCKED) want = 1;
    else if (s0 == PICOTM_RWSTATE_RDLOCKED) want = readers[l] == 1;
    else want = !readers[l] && !writers[l];
    if (o.k == O_RD) picotm_rwstate_try_rdlock(&st[l], &lock[l], &e);
    else picotm_rwstate_try_wrlock(&st[l], &lock[l], &e);
    enum picotm_rwstate_status s1 = picotm_rwstate_get_status(&st[l]);
    bool ok = !picotm_error_is_set(&e);
    if (!ok) {
        check_error(&e, l);
        if (s1 != s0) pbt_fail(P, "state", "failed acquisition changed the state from %d to %d", s0, s1);
    } else {
        enum picotm_rwstate_status w = o.k == O_WR ? PICOTM_RWSTATE_WRLOCKED : s0 == PICOTM_RWSTATE_UNLOCKED ? PICOTM_RWSTATE_RDLOCKED : s0;
        if (s1 != w) pbt_fail(P, "state", "state is %d, expected %d", s1, w);
        if (seen_conflict[l]) after_conflict = 1;
    }
    if (exact && want != -1 && ok != want)
        pbt_fail(P, ok ? "no-exclusion" : "spurious-conflict", "thread %d %s of lock %d %s with %d readers and %d writers (own state %d)", t,
                 o.k == O_RD ? "read-lock" : s0 == PICOTM_RWSTATE_RDLOCKED ? "upgrade" : "write-lock", l,
                 ok ? "succeeded" : "failed", readers[l], writers[l], s0);
    if (!ok || s1 == s0) return;
    /* shadow ownership; in stress mode this happens inside the critical section */
    if (s1 == PICOTM_RWSTATE_RDLOCKED) {
        __atomic_add_fetch(&readers[l], 1, __ATOMIC_SEQ_CST);
        if (__atomic_load_n(&writers[l], __ATOMIC_SEQ_CST)) pbt_fail(P, "no-exclusion", "thread %d reads while lock %d has a writer", t, l);
    } else {
        if (s0 == PICOTM_RWSTATE_RDLOCKED) __atomic_sub_fetch(&readers[l], 1, __ATOMIC_SEQ_CST);
        int w = __atomic_add_fetch(&writers[l], 1, __ATOMIC_SEQ_CST), r = __atomic_load_n(&readers[l], __ATOMIC_SEQ_CST);
        if (w != 1 || r) pbt_fail(P, "no-exclusion", "thread %d writes while lock %d has %d readers and %d other writers", t, l, r, w - 1);
    }
}

static void body(int t)
{
    static __thread struct picotm_rwstate st[MAXL];
    static __thread volatile int i, r;
    static __thread volatile bool exact;
    exact = !mt_free_run;
    vclock_off = 0;
    for (i = 0; i < nlocks; ++i) picotm_rwstate_init(&st[i]);
    picotm_begin
        vclock_off = prog[t].old ? 100 : 0;
        for (r = 0; r < reps; ++r) {
            for (i = 0; i < prog[t].n; ++i) {
                mt_point();
                if (prog[t].op[i].k == O_ALL)
                    for (int l = 0; l < nlocks; ++l) step(t, st, (struct op){ O_UNLOCK, l }, exact);
                else step(t, st, prog[t].op[i], exact);
            }
            mt_point();
            for (int l = 0; l < nlocks; ++l) step(t, st, (struct op){ O_UNLOCK, l }, exact);
        }
    picotm_commit
        pbt_fail(P, "error", "unexpected recovery %d", picotm_error_status());
    picotm_end
    for (i = 0; i < nlocks; ++i) picotm_rwstate_uninit(&st[i]);
    mt_point();
    picotm_release();
}

static void quiesced(void)
{
    for (int l = 0; l < nlocks; ++l) {
        struct picotm_error e = PICOTM_ERROR_INITIALIZER;
        struct picotm_rwstate s = PICOTM_RWSTATE_INITIALIZER;
        if (readers[l] || writers[l]) pbt_fail(P, "harness", "shadow counters");
        picotm_rwstate_try_rdlock(&s, &lock[l], &e);
        if (picotm_error_is_set(&e)) pbt_fail(P, "leak", "lock %d cannot be read-locked although nobody holds it", l);
        picotm_rwstate_try_wrlock(&s, &lock[l], &e);
        if (picotm_error_is_set(&e)) pbt_fail(P, "leak", "lock %d cannot be upgraded by its sole reader", l);
        picotm_rwstate_unlock(&s, &lock[l]);
        picotm_rwstate_try_wrlock(&s, &lock[l], &e);
        if (picotm_error_is_set(&e)) pbt_fail(P, "leak", "lock %d cannot be write-locked although nobody holds it", l);
        picotm_rwstate_unlock(&s, &lock[l]);
        for (int i = 0; i < 12; ++i) {
            picotm_rwlock_try_rdlock(&lock[l], &e);
            if (picotm_error_is_set(&e)) pbt_fail(P, "leak", "reader %d of lock %d rejected", i, l);
        }
        for (int i = 0; i < 12; ++i) picotm_rwlock_unlock(&lock[l]);
    }
}

void prop_case(struct pbt* p)
{
    bool stress = !strcmp(pbt_mode, "stress");
    P = p;
    nthr = stress && !FINE ? 2 + pbt_draw(p, pbt_chance(p, 1, 4) ? 39 : 9) : 1 + pbt_draw(p, pbt_chance(p, 1, 3) ? 30 : 5);
    nlocks = 1 + pbt_draw(p, FINE ? 2 : MAXL);
    reps = stress ? FINE ? 1 + pbt_draw(p, 3) : 20 + pbt_draw(p, 300) : 1;
    int maxops = nthr > 8 ? 6 : FINE ? 10 : MAXOPS;
    unsigned oldw = pbt_draw(p, 4);
    int crowd = nthr > 8 && pbt_chance(p, 2, 3);      /* mostly readers of one lock */
    for (int t = 0; t < nthr; ++t) {
        prog[t].old = oldw && pbt_chance(p, oldw, 4);
        prog[t].n = 1 + (FINE ? (int)pbt_draw(p, maxops - 1) : pbt_len(p, maxops - 1));
        pbt_trace(p, "T%d%s:", t, prog[t].old ? " (old)" : "");
        for (int i = 0; i < prog[t].n; ++i) {
            static const char* const nm[] = { "rd", "wr", "unlock", "all" };
            struct op* o = &prog[t].op[i];
            o->k = crowd ? PBT_W(p, 16, 1, 1, 0) : PBT_W(p, 4, 3, 3, 1);
            o->l = crowd && pbt_chance(p, 4, 5) ? 0 : pbt_draw(p, nlocks);
            pbt_trace(p, " %s%d", nm[o->k], o->l);
        }
        pbt_trace(p, "; ");
    }
    int ns = 0;
    if (!stress) { ns = mt_gen_sched(p, sched, sizeof(sched)); pbt_trace(p, "schedule of %d", ns); }
    for (int l = 0; l < nlocks; ++l) { picotm_rwlock_init(&lock[l]); readers[l] = writers[l] = 0; seen_conflict[l] = 0; }
    conflicts = after_conflict = 0;
    vclock_waits = 0;
    if (stress) mt_stress(nthr, body); else mt_run(nthr, body, sched, ns);
    quiesced();
    for (int l = 0; l < nlocks; ++l) picotm_rwlock_uninit(&lock[l]);
    if (conflicts && after_conflict) pbt_nontrivial(p);
    if (conflicts) pbt_label(p, "conflict");
    if (vclock_waits) pbt_label(p, "waited");
    if (nthr > 15) pbt_label(p, "more-than-15-threads");
}
