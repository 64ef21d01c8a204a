/* C04: irrevocable transactions run alone; every transaction finishes. Modes: sched, stress. */
#include "mt.h"
#include "vclock.h"
#include <picotm/picotm.h>
#include <picotm/picotm-error.h>
#include <picotm/picotm-module.h>
#include <picotm/picotm-tm.h>
#include <picotm/picotm-tm-ctypes.h>

int prop_batch = 50;
int prop_timeout_ms = 20000;
int prop_flaky_ok = 1;
const char prop_rule[] =
    "1-8 threads run 1-6 transactions each; a transaction is a list of memory loads, stores and increments of "
    "shared words, is young or older than a second, and keeps conflicting on its own for 0-60 attempts (unless it "
    "is irrevocable), becomes irrevocable itself, raises errors and is restarted by its recovery code 0-14 times, or "
    "gives up; sometimes up to 1050 threads have come and gone before. A registered module counts the transactions between begin and finish. Oracle: an irrevocable "
    "transaction is the only one between begin and finish; it is never restarted; at most 16 attempts conflict "
    "in a row; every thread finishes; committed increments are all there. Threads run under generated "
    "schedules (sched) or freely (stress). Non-trivial: at least two threads, and a transaction became irrevocable.";

enum { MAXT = 8, MAXTX = 6, MAXOP = 8, NV = 4, BOUND = 16 };
enum { O_LOAD, O_STORE, O_INC, O_PRIV };
struct op { uint8_t k, v; };
struct tx { int n; struct op op[MAXOP]; bool old; int restarts, conflicts, irrev_at, fail_end; };
static struct { int n; struct tx tx[MAXTX]; } prog[MAXT];
static int nthr;
static uint64_t mem[NV * 8] __attribute__((aligned(64)));
static volatile long incs[NV];
static volatile int active, exclusive, became;
static struct pbt* P;
static uint8_t sched[1200];
static __thread volatile bool is_active, is_excl, started;

static void m_begin(void* d, struct picotm_error* e)
{
    bool irrev = picotm_is_irrevocable();
    int a = __atomic_add_fetch(&active, 1, __ATOMIC_SEQ_CST);
    is_active = true;
    is_excl = irrev;
    if (irrev) {
        if (a != 1) pbt_fail(P, "not-alone", "an irrevocable transaction began while %d others were running", a - 1);
        __atomic_store_n(&exclusive, 1, __ATOMIC_SEQ_CST);
        became = 1;
    } else if (__atomic_load_n(&exclusive, __ATOMIC_SEQ_CST))
        pbt_fail(P, "not-alone", "a transaction began while an irrevocable one was running");
}

static void m_finish(void* d, struct picotm_error* e)
{
    if (!is_active) pbt_fail(P, "life-cycle", "finish without begin");
    is_active = false;
    if (is_excl) {
        if (__atomic_load_n(&active, __ATOMIC_SEQ_CST) != 1) pbt_fail(P, "not-alone", "others ran during an irrevocable transaction");
        __atomic_store_n(&exclusive, 0, __ATOMIC_SEQ_CST);
    }
    __atomic_sub_fetch(&active, 1, __ATOMIC_SEQ_CST);
}

static void m_undo(void* d, struct picotm_error* e) { }

static const struct picotm_module_ops ops = { m_begin, NULL, NULL, m_undo, NULL, NULL, m_finish, NULL };

static void body(int t)
{
    static __thread volatile int x, i, restarts, streak, conflicts, runs;
    static __thread volatile bool was_irrev, erred, gave_up;
    static __thread volatile long mine[NV];
    struct picotm_error e = PICOTM_ERROR_INITIALIZER;
    is_active = is_excl = false;
    picotm_register_module(&ops, NULL, &e);
    if (picotm_error_is_set(&e)) pbt_fail(P, "register", "module rejected");
    for (x = 0; x < prog[t].n; ++x) {
        struct tx* q = &prog[t].tx[x];
        restarts = streak = conflicts = runs = 0;
        was_irrev = erred = gave_up = false;
        vclock_off = 0;
        mt_point();
        picotm_begin
            vclock_off = prog[t].tx[x].old ? 50 : 0;
            if (picotm_number_of_restarts() != runs)
                pbt_fail(P, "restarts", "thread %d: picotm counts %lu restarts of a transaction that was restarted %d times", t, picotm_number_of_restarts(), runs);
            runs = runs + 1;
            if (was_irrev && !erred)
                pbt_fail(P, "restarted", "thread %d: an irrevocable transaction was restarted", t);
            if (erred) streak = 0;
            erred = false;
            was_irrev = picotm_is_irrevocable();
            if (streak > BOUND) pbt_fail(P, "starved", "thread %d: %d attempts in a row were restarted without the transaction becoming irrevocable", t, streak);
            streak = streak + 1;
            for (int v = 0; v < NV; ++v) mine[v] = 0;
            for (i = 0; i < prog[t].tx[x].n; ++i) {
                struct tx* q = &prog[t].tx[x];
                uint64_t* a = &mem[q->op[i].v * 8];
                mt_point();
                if (q->irrev_at == i) {
                    if (!picotm_is_irrevocable()) streak = 0;
                    picotm_irrevocable();       /* continues only if the transaction is irrevocable */
                    if (!picotm_is_irrevocable()) pbt_fail(P, "revocable", "thread %d: revocable after picotm_irrevocable()", t);
                }
                switch (q->op[i].k) {
                case O_LOAD: { uint64_t z; load_tx(a, &z, 8); break; }
                case O_STORE: { uint64_t z; load_tx(a, &z, 8); store_tx(a, &z, 8); break; }
                case O_INC: { uint64_t z; load_tx(a, &z, 8); z++; store_tx(a, &z, 8); mine[q->op[i].v]++; break; }
                case O_PRIV: privatize_tx(a, 8, PICOTM_TM_PRIVATIZE_LOADSTORE); ++*a; mine[q->op[i].v]++; break;
                }
                if (is_excl && __atomic_load_n(&active, __ATOMIC_SEQ_CST) != 1)
                    pbt_fail(P, "not-alone", "thread %d is irrevocable, but %d transactions are running", t, active);
            }
            if (restarts < prog[t].tx[x].restarts) { erred = true; picotm_recover_from_errno(4711); }
            if (conflicts < prog[t].tx[x].conflicts && !picotm_is_irrevocable()) { conflicts = conflicts + 1; picotm_resolve_conflict(NULL); }
            if (prog[t].tx[x].fail_end) { gave_up = true; erred = true; picotm_recover_from_error_code(PICOTM_GENERAL_ERROR); }
        picotm_commit
            if (!erred) pbt_fail(P, "error", "thread %d: unexpected recovery with status %d", t, picotm_error_status());
            if (is_active) pbt_fail(P, "life-cycle", "recovery code runs within the transaction");
            mt_point();
            if (!gave_up) { restarts = restarts + 1; picotm_restart(); }
        picotm_end
        if (is_active) pbt_fail(P, "life-cycle", "transaction still active after its end");
        if (picotm_number_of_restarts() != runs - 1)
            pbt_fail(P, "restarts", "thread %d: picotm counts %lu restarts of a transaction that was restarted %d times", t, picotm_number_of_restarts(), runs - 1);
        if (!gave_up) for (int v = 0; v < NV; ++v) __atomic_add_fetch(&incs[v], mine[v], __ATOMIC_SEQ_CST);
    }
    vclock_off = 0;
    mt_point();
    picotm_release();
    if (picotm_number_of_restarts()) pbt_fail(P, "restarts", "thread %d: %lu restarts after release", t, picotm_number_of_restarts());
}

#ifndef MT_FINE
/* Many threads come and go before: their lock owners have to be recycled. */
static void one_tx(void)
{
    picotm_begin
        load_tx(&mem[0], &(uint64_t){ 0 }, sizeof(uint64_t));
    picotm_commit
        pbt_fail(P, "life-cycle", "a transaction without conflicts failed");
    picotm_end
}
static void* short_lived(void* d) { one_tx(); picotm_release(); return d; }
static void churn(int n)
{
    one_tx();
    for (int i = 0; i < n; ++i) {
        pthread_t t;
        if (pthread_create(&t, NULL, short_lived, NULL)) return;
        pthread_join(t, NULL);
    }
}
#endif

void prop_case(struct pbt* p)
{
    bool stress = !strcmp(pbt_mode, "stress");
    P = p;
    nthr = stress ? 2 + pbt_draw(p, MAXT - 1) : 1 + pbt_draw(p, 5);
    for (int t = 0; t < nthr; ++t) {
        prog[t].n = 1 + pbt_len(p, MAXTX - 1);
        pbt_trace(p, "T%d:", t);
        for (int x = 0; x < prog[t].n; ++x) {
            struct tx* q = &prog[t].tx[x];
            q->n = 1 + pbt_len(p, MAXOP - 1);
            q->old = pbt_chance(p, 1, 4);
            q->irrev_at = pbt_chance(p, 1, 5) ? (int)pbt_draw(p, q->n) : -1;
            q->restarts = pbt_chance(p, 1, 4) ? 1 + pbt_draw(p, 14) : 0;
            q->conflicts = pbt_chance(p, 1, 3) ? 1 + pbt_draw(p, 60) : 0;
            q->fail_end = pbt_chance(p, 1, 6);
            pbt_trace(p, " tx(%s%srestarts %d, conflicts %d, irrevocable at %d:", q->old ? "old, " : "", q->fail_end ? "fails, " : "", q->restarts, q->conflicts, q->irrev_at);
            for (int i = 0; i < q->n; ++i) {
                static const char* const nm[] = { "load", "store", "inc", "direct-inc" };
                q->op[i].k = PBT_W(p, 3, 2, 3, 2);
                q->op[i].v = pbt_draw(p, NV);
                pbt_trace(p, " %s%d", nm[q->op[i].k], q->op[i].v);
            }
            pbt_trace(p, ")");
        }
        pbt_trace(p, "; ");
    }
    int ns = 0;
    if (!stress) { ns = mt_gen_sched(p, sched, sizeof(sched)); pbt_trace(p, "schedule of %d", ns); }
    memset(mem, 0, sizeof(mem));
    for (int v = 0; v < NV; ++v) incs[v] = 0;
    active = exclusive = became = 0;
#ifndef MT_FINE
    if (stress && pbt_chance(p, 1, 100)) {
        int n = pbt_chance(p, 1, 2) ? 1 + pbt_draw(p, 20) : 1010 + pbt_draw(p, 40);
        pbt_trace(p, "; after %d short-lived threads", n);
        churn(n);
        if (n > 1000) pbt_label(p, "after 1000 threads");
    }
#endif
    if (stress) mt_stress(nthr, body); else mt_run(nthr, body, sched, ns);
    picotm_release();
    if (active || exclusive) pbt_fail(p, "life-cycle", "%d transactions never finished", active);
    for (int v = 0; v < NV; ++v)
        if (mem[v * 8] != incs[v]) pbt_fail(p, "lost-update", "word %d is %lu after %ld committed increments", v, (unsigned long)mem[v * 8], incs[v]);
    if (nthr > 1 && became) pbt_nontrivial(p);
    if (became) pbt_label(p, "irrevocable");
}
