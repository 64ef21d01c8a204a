/* C07: threads whose transactions combine modules: memory, heap, files, pipes and containers. Modes: sched
 * (generated operation-level schedules), race (free-running, or basic-block schedules with MT_FINE). */
#define _GNU_SOURCE
#include "mt.h"
#include <errno.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <picotm/picotm.h>
#include <picotm/picotm-module.h>
#include <picotm/picotm-tm.h>
#include <picotm/picotm-libc.h>
#include <picotm/picotm-txlib.h>
#include <picotm/picotm-txqueue.h>
#include <picotm/picotm-txqueue-state.h>
#include <picotm/picotm-txmultiset.h>
#include <picotm/picotm-txmultiset-state.h>
#include <picotm/fcntl.h>
#include <picotm/stdlib.h>
#include <picotm/string.h>
#include <picotm/unistd.h>

int prop_flaky_ok = 1;
int prop_batch = 50;
int prop_timeout_ms = 30000;
const char prop_rule[] =
    "2-4 threads x 1-3 transactions x 2-6 operations, each on any of: shared words (load_tx, store_tx, privatize_tx, memcpy_tx), heap "
    "blocks published through shared pointers (malloc_tx, access, free_tx), slots of a file (pread_tx, pwrite_tx), a queue, a "
    "multiset and a pipe; some transactions irrevocable or failing; sched: generated operation-level schedule, race: free-running "
    "or under a generated schedule of basic blocks. Oracle: one serial order over a model of all of these must explain all "
    "results, the final state of each object and the order in the pipe. Non-trivial: two threads committed changes to "
    "objects of two modules each.";

enum { NW = 3, NP = 2, NFS = 3, NQ = 8, MAXPIPE = 40, MAXT = 4, MAXTX = 3, MAXOP = 6, ROPS = 40, MAXREC = 60 };
enum { R_LOAD, R_STORE, R_COPY, R_PTR, R_SETPTR, R_FREAD, R_FWRITE, R_QPOP, R_QPUSH, R_QSIZE, R_MCOUNT, R_MPUT, R_MTAKE, R_PIPE, R_ORDER };
static const char* const rname[] = { "load", "store", "memcpy", "pointer", "set-pointer", "pread", "pwrite", "pop", "push", "qsize", "count", "insert", "erase", "pipe", "pipe-content" };
struct rop { int8_t k, i; uint8_t v, w; int8_t n; uint8_t seq[MAXPIPE]; };
struct model { uint8_t w[NW], p[NP], f[NFS], nq, q[NQ], nm, m[NQ], np, pipe[MAXPIPE]; };
static struct pbt* P;

static bool hist_apply(struct model* m, const struct rop* o)
{
    switch (o->k) {
    case R_LOAD: return m->w[o->i] == o->v;
    case R_STORE: m->w[o->i] = o->v; return true;
    case R_COPY: m->w[o->i] = m->w[o->v]; return true;
    case R_PTR: return m->p[o->i] == o->v;
    case R_SETPTR: m->p[o->i] = o->v; return true;
    case R_FREAD: return m->f[o->i] == o->v;
    case R_FWRITE: m->f[o->i] = o->v; return true;
    case R_QPOP: if (!m->nq || m->q[0] != o->v) return false; memmove(m->q, m->q + 1, --m->nq); return true;
    case R_QPUSH: if (m->nq >= NQ) return false; m->q[m->nq++] = o->v; return true;
    case R_QSIZE: return m->nq == o->v;
    case R_MCOUNT: return m->nm == o->v;
    case R_MPUT: if (m->nm >= NQ) return false; m->m[m->nm++] = o->v; return true;
    case R_MTAKE: for (int i = 0; i < m->nm; ++i) if (m->m[i] == o->v) { m->m[i] = m->m[--m->nm]; return true; } return false;
    case R_PIPE: if (m->np >= MAXPIPE) return false; m->pipe[m->np++] = o->v; return true;
    case R_ORDER: return m->np == o->n && !memcmp(m->pipe, o->seq, o->n);
    }
    return false;
}
static uint64_t hist_hash(uint64_t mask, const struct model* m)
{
    uint64_t h = mask * 0x9e3779b97f4a7c15ull + 77;
    for (unsigned i = 0; i < sizeof *m; ++i) h = (h ^ ((const uint8_t*)m)[i]) * 0x100000001b3ull ^ h >> 33;
    return h * 0xbf58476d1ce4e5b9ull | 1;
}
#include "hist.h"
static void hist_print(struct pbt* p, const struct rop* o)
{
    pbt_trace(p, " %s(%d)%d", rname[(int)o->k], o->i, o->v);
    if (o->k == R_ORDER) for (int i = 0; i < o->n; ++i) pbt_trace(p, ",%d", o->seq[i]);
}
static struct model init;

enum { O_LOAD, O_STORE, O_INC, O_PRIV, O_COPY, O_DEREF, O_ALLOC, O_FREE, O_PSTORE, O_FREAD, O_FWRITE, O_POP, O_PUSH, O_SIZE, O_MMOVE, O_MCOUNT, O_PIPE, NOPS };
static const char* const oname[] = { "load", "store", "copy-word", "direct", "memcpy", "deref", "alloc", "free", "store-through", "pread", "pwrite", "pop", "push", "size", "move", "count", "pipe" };
struct op { int k; unsigned i, j; };
struct tx { int n; struct op op[MAXOP]; bool irrev, fail; };
static struct { int n; struct tx tx[MAXTX]; } prog[MAXT];
static int nthreads, slot, fd, pp[2], wsz;
static uint64_t W[NW] __attribute__((aligned(64)));
static uint64_t* ptr[NP];
struct item { uint64_t id; struct txqueue_entry q; struct txmultiset_entry m; };
static struct item it[256];
#define ITEM(p, f) ((struct item*)((char*)(p) - offsetof(struct item, f)))
static struct txqueue_state Q;
static struct txmultiset_state M;
static volatile int aborted, uniq;
static uint8_t sched[300];
static pthread_barrier_t bar;
static bool race;
static __thread struct rec* volatile R;

static const void* mkey(struct txmultiset_entry* e) { return &ITEM(e, m)->id; }
static int mcmp(const void* a, const void* b) { uint64_t x = *(const uint64_t*)a, y = *(const uint64_t*)b; return (x > y) - (x < y); }
static struct rop* note(int k, int i, int v)
{
    if (R->n >= ROPS) pbt_inconclusive(P, "ops");
    struct rop* o = &R->op[R->n];
    memset(o, 0, sizeof *o);
    o->k = k; o->i = i; o->v = v;
    __atomic_store_n(&R->n, R->n + 1, __ATOMIC_RELEASE);
    return o;
}
static int fresh(void) { int v = __atomic_add_fetch(&uniq, 1, __ATOMIC_SEQ_CST); if (v > 180) pbt_inconclusive(P, "values"); return v; }
static int8_t val(int t, uint64_t v)
{
    if (v > 255) pbt_fail(P, "value", "thread %d: loaded %#lx", t, (unsigned long)v);
    return v;
}

static void do_op(int t, struct op* o)
{
    static __thread uint8_t b[1500];
    uint64_t z;
    int i = o->i % NW, j = o->j % NW, ip = o->i % NP;
    switch (o->k) {
    case O_LOAD: load_tx(&W[i], &z, 8); note(R_LOAD, i, val(t, z)); break;
    case O_STORE: z = fresh(); store_tx(&W[i], &z, 8); note(R_STORE, i, z); break;
    case O_INC: load_tx(&W[i], &z, 8); note(R_LOAD, i, val(t, z)); if (!race) mt_point(); store_tx(&W[j], &z, 8); note(R_STORE, j, z); break;
    case O_PRIV: privatize_tx(&W[i], 8, PICOTM_TM_PRIVATIZE_LOADSTORE); note(R_LOAD, i, val(t, W[i])); z = fresh(); W[i] = z; note(R_STORE, i, z); break;
    case O_COPY: if (i == j) return; memcpy_tx(&W[i], &W[j], wsz); note(R_COPY, i, j); break;
    case O_DEREF: case O_ALLOC: case O_FREE: case O_PSTORE: {
        uint64_t* q;
        load_tx(&ptr[ip], &q, sizeof q);
        if (!q) {
            note(R_PTR, ip, 0);
            if (o->k != O_ALLOC) return;
            q = malloc_tx(8 + o->j % 40);
            if (!q) pbt_fail(P, "malloc", "malloc_tx failed");
            z = fresh();
            if (o->j & 1) *q = z; else store_tx(q, &z, 8);
            store_tx(&ptr[ip], &q, sizeof q);
            note(R_SETPTR, ip, z);
            return;
        }
        load_tx(q, &z, 8);
        note(R_PTR, ip, val(t, z));
        if (o->k == O_PSTORE) { z = fresh(); store_tx(q, &z, 8); note(R_SETPTR, ip, z); }
        if (o->k == O_FREE) {
            uint64_t* n = NULL;
            store_tx(&ptr[ip], &n, sizeof n);
            free_tx(q);
            note(R_SETPTR, ip, 0);
        }
        break;
    }
    case O_FREAD: {
        long r = pread_tx(fd, b, slot, i * (off_t)slot);
        if (r != slot) pbt_fail(P, "pread", "thread %d: pread returned %ld", t, r);
        for (int k = 1; k < slot; ++k) if (b[k] != b[0]) pbt_fail(P, "torn", "thread %d: slot %d of the file is torn", t, i);
        note(R_FREAD, i, b[0]);
        break;
    }
    case O_FWRITE: {
        int v = fresh();
        memset(b, v, slot);
        long r = pwrite_tx(fd, b, slot, i * (off_t)slot);
        if (r != slot) pbt_fail(P, "pwrite", "thread %d: pwrite returned %ld", t, r);
        note(R_FWRITE, i, v);
        break;
    }
    case O_POP: case O_PUSH: case O_SIZE: {
        struct txqueue* q = txqueue_of_state_tx(&Q);
        int n = txqueue_size_tx(q);
        note(R_QSIZE, 0, n);
        if (txqueue_empty_tx(q) != !n) pbt_fail(P, "queue", "thread %d: queue of %d elements is reported as %s", t, n, n ? "empty" : "not empty");
        if (o->k == O_POP && n) {
            int id = ITEM(txqueue_front_tx(q), q)->id;
            txqueue_pop_tx(q);
            note(R_QPOP, 0, id);
        } else if (o->k == O_PUSH && n < NQ) {
            int id = fresh();
            txqueue_push_tx(q, &it[id].q);
            note(R_QPUSH, 0, id);
        }
        break;
    }
    case O_MMOVE: {         /* moves an element from one container to the other */
        struct txqueue* q = txqueue_of_state_tx(&Q);
        struct txmultiset* m = txmultiset_of_state_tx(&M);
        if (o->j & 1) {
            if (txqueue_empty_tx(q)) { note(R_QSIZE, 0, 0); return; }
            struct item* x = ITEM(txqueue_front_tx(q), q);
            txqueue_pop_tx(q);
            note(R_QPOP, 0, x->id);
            if (!race) mt_point();
            txmultiset_insert_tx(m, &x->m);
            note(R_MPUT, 0, x->id);
        } else {
            struct txmultiset_entry* e = txmultiset_begin_tx(m);
            if (e == txmultiset_end_tx(m)) { note(R_MCOUNT, 0, 0); return; }
            int n = txqueue_size_tx(q);
            note(R_QSIZE, 0, n);
            if (n >= NQ) return;
            struct item* x = ITEM(e, m);
            txmultiset_erase_tx(m, e);
            note(R_MTAKE, 0, x->id);
            if (!race) mt_point();
            txqueue_push_tx(q, &x->q);
            note(R_QPUSH, 0, x->id);
        }
        break;
    }
    case O_MCOUNT: note(R_MCOUNT, 0, (int)txmultiset_size_tx(txmultiset_of_state_tx(&M))); break;
    case O_PIPE: {
        int v = fresh();
        uint8_t w[4] = { v, v, v, v };
        if (write_tx(pp[1], w, 4) != 4) pbt_fail(P, "pipe", "thread %d: write to the pipe failed", t);
        note(R_PIPE, 0, v);
        break;
    }
    }
}

__attribute__((noinline)) static void run_tx(int t, struct tx* x)
{
    static __thread volatile int i;
    R = NULL;
    picotm_begin
        mt_attempt(P, R != NULL, picotm_is_irrevocable());
        if (R) { R->end = mt_tick(); aborted = 1; }
        R = new_rec(t);
        if (x->irrev) picotm_irrevocable();
        for (i = 0; i < x->n; ++i) {
            if (!race) mt_point();
            do_op(t, &x->op[i]);
        }
        if (!race) mt_point();
        if (x->fail && !picotm_is_irrevocable()) picotm_recover_from_error_code(PICOTM_GENERAL_ERROR);
    picotm_commit
        if (!x->fail) pbt_fail(P, "error", "unexpected recovery %d (%ld)", picotm_error_status(), picotm_error_status() == PICOTM_ERRNO ? (long)picotm_error_as_errno() : -1);
        R->end = mt_tick();
        mt_finished(); return;
    picotm_end
    mt_finished();
    R->end = mt_tick();
    R->committed = true;
}

static void body(int t)
{
    if (race) pthread_barrier_wait(&bar);
    for (int i = 0; i < prog[t].n; ++i) run_tx(t, &prog[t].tx[i]);
    picotm_release();
}
__attribute__((noinline)) static void drain(void)
{
    static volatile int ids[2][2 * NQ], n[2], i;
    n[0] = n[1] = 0;
    picotm_begin
        struct txqueue* q = txqueue_of_state_tx(&Q);
        struct txmultiset* m = txmultiset_of_state_tx(&M);
        while (!txqueue_empty_tx(q)) { ids[0][n[0]] = ITEM(txqueue_front_tx(q), q)->id; txqueue_pop_tx(q); n[0] = n[0] + 1; }
        for (;;) { struct txmultiset_entry* e = txmultiset_begin_tx(m); if (e == txmultiset_end_tx(m)) break; ids[1][n[1]] = ITEM(e, m)->id; txmultiset_erase_tx(m, e); n[1] = n[1] + 1; }
    picotm_commit
        pbt_fail(P, "drain", "unexpected recovery");
    picotm_end
    for (i = 0; i < n[0]; ++i) note(R_QPOP, 0, ids[0][i]);
    note(R_QSIZE, 0, 0);
    for (i = 0; i < n[1]; ++i) note(R_MTAKE, 0, ids[1][i]);
    note(R_MCOUNT, 0, 0);
}

void prop_case(struct pbt* p)
{
    static const int ss[] = { 8, 300, 1024, 100, 1500 };
    static char path[200];
    P = p;
    race = !strcmp(pbt_mode, "race");
    nthreads = 2 + pbt_draw(p, race ? MAXT - 1 : 3);
    slot = ss[pbt_draw(p, 5)];
    wsz = 8;
    memset(&init, 0, sizeof init);
    nrec = 0; aborted = 0; mt_clock = 0; uniq = 0;
    snprintf(path, sizeof path, "%s/f", pbt_scratch());
    fd = open(path, O_CREAT | O_TRUNC | O_RDWR, 0600);
    static uint8_t buf[1500 * NFS];
    for (int i = 0; i < NFS; ++i) memset(buf + i * slot, init.f[i] = fresh(), slot);
    if (fd < 0 || write(fd, buf, NFS * slot) != NFS * slot || pipe2(pp, O_NONBLOCK)) pbt_inconclusive(p, "scratch");
    for (int i = 0; i < NW; ++i) W[i] = init.w[i] = fresh();
    for (int i = 0; i < NP; ++i) { ptr[i] = NULL; if (pbt_chance(p, 1, 2)) { ptr[i] = malloc(16); *ptr[i] = init.p[i] = fresh(); } }
    for (int i = 0; i < 256; ++i) { it[i].id = i; txqueue_entry_init(&it[i].q); txmultiset_entry_init(&it[i].m); }
    txqueue_state_init(&Q);
    txmultiset_state_init(&M, mkey, mcmp);
    int hot = pbt_draw(p, 3), nq = 0;
    for (int t = 0; t < nthreads; ++t) {
        prog[t].n = 1 + pbt_draw(p, MAXTX);
        pbt_trace(p, "T%d:", t);
        for (int i = 0; i < prog[t].n; ++i) {
            struct tx* x = &prog[t].tx[i];
            x->n = 2 + pbt_draw(p, MAXOP - 1);
            x->irrev = pbt_chance(p, 1, 14);
            x->fail = !x->irrev && pbt_chance(p, 1, 12);
            pbt_trace(p, " {%s%s", x->irrev ? "irrevocable " : "", x->fail ? "fails " : "");
            for (int j = 0; j < x->n; ++j) {
                struct op* o = &x->op[j];
                o->k = PBT_W(p, 3, 3, 2, 1, 1, 2, 2, 2, 1, 3, 3, 2, 3, 1, 3, 1, 2);
                o->i = pbt_chance(p, 2, 3) ? (unsigned)hot : pbt_draw(p, 6); o->j = pbt_draw(p, 64);
                if (o->k == O_PUSH && ++nq > NQ - 2) o->k = O_POP;
                pbt_trace(p, " %s(%u,%u)", oname[o->k], o->i, o->j);
            }
            pbt_trace(p, "}");
        }
        pbt_trace(p, "\n");
    }
    int ns = race ? 0 : mt_gen_sched(p, sched, sizeof(sched));
    if (race) {
        pthread_barrier_init(&bar, NULL, nthreads);
        mt_stress(nthreads, body);
        pthread_barrier_destroy(&bar);
    } else mt_run(nthreads, body, sched, ns);

    R = new_rec(9);
    for (int i = 0; i < NW; ++i) note(R_LOAD, i, val(9, W[i]));
    for (int i = 0; i < NP; ++i) { note(R_PTR, i, ptr[i] ? val(9, *ptr[i]) : 0); free(ptr[i]); }
    if (pread(fd, buf, sizeof buf, 0) != NFS * slot) pbt_fail(p, "size", "the file has a wrong size in the end");
    for (int i = 0; i < NFS * slot; ++i) {
        if (buf[i] != buf[i / slot * slot]) pbt_fail(p, "torn", "slot %d of the file is torn in the end", i / slot);
        if (i % slot == 0) note(R_FREAD, i / slot, buf[i]);
    }
    R->end = mt_tick(); R->committed = true;
    R = new_rec(9);
    drain();
    struct rop* r = note(R_ORDER, 0, 0);
    for (uint8_t b[4]; read(pp[0], b, 4) > 0;) {
        if (b[0] != b[1] || b[0] != b[3] || r->n >= MAXPIPE) pbt_fail(p, "pipe", "torn messages in the pipe");
        r->seq[r->n++] = b[0];
    }
    R->end = mt_tick(); R->committed = true;
    txqueue_state_uninit(&Q);
    txmultiset_state_uninit(&M);
    picotm_release();
    close(fd); close(pp[0]); close(pp[1]);

    unsigned thr = 0;
    for (int i = 0; i < nrec; ++i) if (recs[i].committed && recs[i].thread < 8) {
        unsigned mods = 0;
        for (int j = 0; j < recs[i].n; ++j) switch (recs[i].op[j].k) {
            case R_STORE: case R_COPY: mods |= 1; break;
            case R_SETPTR: mods |= 2; break;
            case R_FWRITE: mods |= 4; break;
            case R_QPOP: case R_QPUSH: mods |= 8; break;
            case R_MPUT: case R_MTAKE: mods |= 16; break;
            case R_PIPE: mods |= 32; break;
        }
        if (mods & (mods - 1)) thr |= 1u << recs[i].thread;
    }
    if (thr & (thr - 1)) pbt_nontrivial(p);
    if (aborted) pbt_label(p, "conflict");
    if (!mt_lone()) hist_check(p, &init);
}
