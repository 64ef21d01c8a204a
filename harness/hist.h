/* Histories of transactions checked against a sequential model. The harness provides
 *   struct rop, ROPS, MAXREC, P,
 *   struct model; hist_apply(m, o): applies a recorded operation, false if its result does not fit;
 *   hist_hash(mask, m); hist_print(p, o).
 * Committed attempts must be explained by a serial order that respects real time; the operations of
 * every aborted attempt by a state on the way. */
#pragma once
struct rec { int thread; uint64_t begin, end; bool committed; int n; struct rop op[ROPS]; };
static struct rec recs[MAXREC];
static volatile int nrec;
static pthread_mutex_t rlock = PTHREAD_MUTEX_INITIALIZER;
static void hist_print(struct pbt* p, const struct rop* o);
static bool apply_all(struct model* m, const struct rec* r) { for (int i = 0; i < r->n; ++i) if (!hist_apply(m, &r->op[i])) return false; return true; }

static struct rec* new_rec(int t)
{
    pthread_mutex_lock(&rlock);
    if (nrec >= MAXREC) { pbt_inconclusive(P, "history-too-long"); }
    struct rec* r = &recs[nrec++];
    r->thread = t; r->n = 0; r->committed = false; r->end = ~0ull;
    r->begin = mt_tick();
    pthread_mutex_unlock(&rlock);
    return r;
}
static long steps;
enum { HASH = 1 << 14 };
static uint64_t memo[HASH];

/* mask: transactions placed. target >= 0: an aborted attempt that must fit in somewhere */
static bool search(uint64_t mask, const struct model* m, int target, uint64_t all)
{
    if (++steps > 300000) pbt_inconclusive(P, "search");
    if (target < 0 && mask == all) return true;
    uint64_t h = hist_hash(mask, m);
    if (memo[h % HASH] == h) return false;
    if (target >= 0) {
        bool may = true;
        for (int i = 0; i < nrec && may; ++i) if (recs[i].committed && !(mask >> i & 1) && recs[i].end < recs[target].begin) may = false;
        struct model x = *m;
        if (may && apply_all(&x, &recs[target])) return true;
    }
    for (int i = 0; i < nrec; ++i) {
        if (!recs[i].committed || mask >> i & 1) continue;
        if (target >= 0 && recs[i].begin > recs[target].end) continue;
        bool may = true;
        for (int j = 0; j < nrec && may; ++j) if (j != i && recs[j].committed && !(mask >> j & 1) && recs[j].end < recs[i].begin) may = false;
        if (!may) continue;
        struct model x = *m;
        if (apply_all(&x, &recs[i]) && search(mask | 1ull << i, &x, target, all)) return true;
    }
    memo[h % HASH] = h;
    return false;
}



static void hist_dump(struct pbt* p)
{
    for (int i = 0; i < nrec; ++i) {
        struct rec* t = &recs[i];
        pbt_trace(p, "  [%llu-%llu] T%d %s:", (unsigned long long)t->begin, (unsigned long long)t->end, t->thread, t->committed ? "committed" : "aborted");
        for (int j = 0; j < t->n; ++j) hist_print(p, &t->op[j]);
        pbt_trace(p, "\n");
    }
}

static void hist_check(struct pbt* p, const struct model* init)
{
    uint64_t all = 0;
    for (int i = 0; i < nrec; ++i) if (recs[i].committed) all |= 1ull << i;
    steps = 0;
    memset(memo, 0, sizeof memo);
    if (!search(0, init, -1, all)) {
        hist_dump(p);
        pbt_fail(p, "not-serializable", "no serial order explains the committed transactions");
    }
    for (int i = 0; i < nrec; ++i) {
        if (recs[i].committed || !recs[i].n) continue;
        memset(memo, 0, sizeof memo);
        if (!search(0, init, i, all)) {
            hist_dump(p);
            pbt_fail(p, "inconsistent-view", "aborted attempt %d of thread %d saw a state that no serial order explains", i, recs[i].thread);
        }
    }
}
