/* Strict serialisability / opacity oracle over recorded transactions on small
 * register files. Each record is one execution attempt: reads (var,value) that
 * were not preceded by an own write, final writes (var,value), a begin and an
 * end time; committed or not. */
#pragma once
#include <stdint.h>
#include <stdbool.h>
#include <string.h>

enum { SER_VARS = 8, SER_MAXTX = 40, SER_MAXOPS = 16 };

struct ser_tx {
    int thread;
    uint64_t begin, end;
    bool committed;
    int nreads, nwrites;
    struct { int var; uint64_t val; } r[SER_MAXOPS], w[SER_MAXOPS];
};

static struct ser_tx ser_tx[SER_MAXTX];
static int ser_n;
static uint64_t ser_init[SER_VARS], ser_final[SER_VARS];
static int ser_nvars;
static long ser_steps;

static void ser_read(struct ser_tx* t, int var, uint64_t val)
{
    if (t->nreads < SER_MAXOPS) { t->r[t->nreads].var = var; t->r[t->nreads++].val = val; }
}

static void ser_write(struct ser_tx* t, int var, uint64_t val)
{
    for (int i = 0; i < t->nwrites; ++i)
        if (t->w[i].var == var) { t->w[i].val = val; return; }
    if (t->nwrites < SER_MAXOPS) { t->w[t->nwrites].var = var; t->w[t->nwrites++].val = val; }
}

/* extra: index of one aborted attempt that has to be placed as well (-1: none) */
static bool ser_dfs(const int* idx, int n, uint64_t placed, int nplaced, uint64_t* mem, bool check_final)
{
    if (++ser_steps > 2000000) return true;     /* inconclusive counts as consistent */
    if (nplaced == n) return !check_final || !memcmp(mem, ser_final, ser_nvars * sizeof(*mem));
    for (int k = 0; k < n; ++k) {
        if (placed >> k & 1) continue;
        struct ser_tx* t = &ser_tx[idx[k]];
        bool ok = true;
        for (int j = 0; j < n && ok; ++j)       /* real-time order */
            if (j != k && !(placed >> j & 1) && ser_tx[idx[j]].end < t->begin) ok = false;
        for (int i = 0; i < t->nreads && ok; ++i)
            if (mem[t->r[i].var] != t->r[i].val) ok = false;
        if (!ok) continue;
        uint64_t save[SER_VARS];
        memcpy(save, mem, sizeof(save));
        if (t->committed)
            for (int i = 0; i < t->nwrites; ++i) mem[t->w[i].var] = t->w[i].val;
        if (ser_dfs(idx, n, placed | 1ull << k, nplaced + 1, mem, check_final)) return true;
        memcpy(mem, save, sizeof(save));
    }
    return false;
}

/* -1: consistent; -2: committed transactions have no serial order; >=0: aborted attempt
 * saw a state that no serial order explains */
static int ser_check(void)
{
    int idx[SER_MAXTX], n = 0;
    for (int i = 0; i < ser_n; ++i) if (ser_tx[i].committed) idx[n++] = i;
    uint64_t mem[SER_VARS];
    memcpy(mem, ser_init, sizeof(mem));
    ser_steps = 0;
    if (!ser_dfs(idx, n, 0, 0, mem, true)) return -2;
    for (int i = 0; i < ser_n; ++i) {
        if (ser_tx[i].committed || ser_tx[i].nreads < 2) continue;
        idx[n] = i;
        memcpy(mem, ser_init, sizeof(mem));
        ser_steps = 0;
        if (!ser_dfs(idx, n + 1, 0, 0, mem, true)) return i;
    }
    return -1;
}
