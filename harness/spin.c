/* C06: spinlocks. */
#include "pbt.h"
#include <pthread.h>
#include <sched.h>
#include <picotm/picotm-lib-spinlock.h>

const char prop_rule[] =
    "1-4 threads run generated programs of lock, try-lock and unlock on 1-3 spinlocks (in order of the locks), some hundred "
    "times, with holders that are descheduled. Oracle: at most one holder, no lost update of data that the lock protects, "
    "try-lock fails only while someone else holds or takes the lock, and every lock is free at the end. Non-trivial: two threads.";
int prop_flaky_ok = 1;

enum { NT = 4, NL = 3, MAXOPS = 8 };
static struct picotm_spinlock l[NL];
static volatile long count[NL]; static long want[NL];
static volatile int holder[NL];
static struct { int n, reps; struct { int k, l, pause; } op[MAXOPS]; long done[NL]; volatile int bad; } th[NT];
static int nth;
static pthread_barrier_t bar;

static void* run(void* a)
{
    int t = (long)a;
    pthread_barrier_wait(&bar);
    for (int r = 0; r < th[t].reps; ++r) {
        int held = 0;
        for (int i = 0; i < th[t].n; ++i) {
            int x = th[t].op[i].l;
            if (held & (1 << x)) {
                if (picotm_spinlock_try_lock(&l[x])) th[t].bad = 1;
                if (holder[x] != t + 1) th[t].bad = 2;
                holder[x] = 0;
                picotm_spinlock_unlock(&l[x]);
                held &= ~(1 << x);
                continue;
            }
            if (th[t].op[i].k) { if (!picotm_spinlock_try_lock(&l[x])) { if (nth == 1) th[t].bad = 3; continue; } }
            else { if (held >> x) continue; picotm_spinlock_lock(&l[x]); }     /* in order, so that there is no deadlock */
            if (holder[x]) th[t].bad = 4;
            holder[x] = t + 1;
            held |= 1 << x;
            long c = count[x];
            switch (th[t].op[i].pause) { case 1: for (volatile int k = 0; k < 50; ++k) ; break; case 2: if (r % 32 == 0) sched_yield(); break; }
            count[x] = c + 1;
            if (holder[x] != t + 1) th[t].bad = 5;
            ++th[t].done[x];
        }
        for (int x = 0; x < NL; ++x) if (held & (1 << x)) { if (holder[x] != t + 1) th[t].bad = 6; holder[x] = 0; picotm_spinlock_unlock(&l[x]); }
    }
    return NULL;
}

void prop_init(void) { }
void prop_case(struct pbt* p)
{
    static const char* const what[] = { "", "try-lock by the holder succeeded", "the lock has another holder", "try-lock of a free lock failed", "the lock was given to two holders", "another thread got the lock meanwhile", "the lock has another holder" };
    nth = 1 + PBT_W(p, 1, 4, 3, 2);
    int nl = 1 + pbt_draw(p, NL);
    for (int x = 0; x < NL; ++x) {
        static const struct picotm_spinlock ini = PICOTM_SPINLOCK_INITIALIZER;
        if (pbt_chance(p, 1, 2)) l[x] = ini; else { memset(&l[x], 1, sizeof l[x]); picotm_spinlock_init(&l[x]); }
        count[x] = want[x] = 0; holder[x] = 0;
    }
    for (int t = 0; t < nth; ++t) {
        memset(&th[t], 0, sizeof th[t]);
        th[t].n = 1 + pbt_draw(p, MAXOPS); th[t].reps = 1 + pbt_draw(p, 400);
        pbt_trace(p, "thread %d x %d:", t, th[t].reps);
        for (int i = 0; i < th[t].n; ++i) { th[t].op[i].k = pbt_draw(p, 2); th[t].op[i].l = pbt_draw(p, nl); th[t].op[i].pause = PBT_W(p, 2, 2, 1); pbt_trace(p, " %s(%d)", th[t].op[i].k ? "trylock" : "lock", th[t].op[i].l); }
        pbt_trace(p, "\n");
    }
    pthread_barrier_init(&bar, NULL, nth);
    pthread_t id[NT];
    for (long t = 0; t < nth; ++t) if (pthread_create(&id[t], NULL, run, (void*)t)) abort();
    for (int t = 0; t < nth; ++t) pthread_join(id[t], NULL);
    for (int t = 0; t < nth; ++t) { if (th[t].bad) pbt_fail(p, "exclusion", "thread %d: %s", t, what[th[t].bad]); for (int x = 0; x < NL; ++x) want[x] += th[t].done[x]; }
    for (int x = 0; x < NL; ++x) {
        if (count[x] != want[x]) pbt_fail(p, "lost-update", "lock %d was held %ld times, but only %ld updates are left", x, want[x], count[x]);
        if (!picotm_spinlock_try_lock(&l[x])) pbt_fail(p, "free", "lock %d is not free at the end", x);
        picotm_spinlock_unlock(&l[x]);
        picotm_spinlock_uninit(&l[x]);
    }
    pthread_barrier_destroy(&bar);
    if (nth > 1) pbt_nontrivial(p);
}
