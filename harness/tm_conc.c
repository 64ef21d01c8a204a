/* C02: concurrent memory transactions are strictly serialisable and never see
 * inconsistent state. Modes: sched (generated schedules), stress (real races). */
#define _GNU_SOURCE
#include "mt.h"
#include "serial.h"
#include <picotm/picotm.h>
#include <picotm/picotm-module.h>
#include <picotm/picotm-tm.h>
#include <picotm/picotm-tm-ctypes.h>

int prop_flaky_ok = 1;
int prop_batch = 50;
int prop_timeout_ms = 30000;
const char prop_rule[] =
    "sched: 2-4 threads x 1-3 transactions x 1-6 operations (load/store/privatize and direct access) on 2-6 "
    "8-byte variables at generated (mis)alignments, run under a generated operation-level schedule; every "
    "attempt's reads and writes are recorded and checked for strict serialisability of committed transactions, "
    "for the final memory, and for consistency of the reads of aborted attempts. stress: 2-8 free-running "
    "threads transfer between variables under a constant-sum invariant. Non-trivial: at least one conflict "
    "(restarted attempt) or two threads writing a variable the other accesses.";

enum { MAXT = 4, MAXTX = 3, MAXOP = 6, NV = 6 };
enum { K_LOAD, K_STORE, K_PRIV_R, K_PRIV_W, K_LDST };
struct op { int k, v, v2; };
struct tx { int n; struct op op[MAXOP]; bool irrev, fail; };
static struct { int n; struct tx tx[MAXTX]; } prog[MAXT];
static int nthreads, nvars;
static uint8_t arena[512] __attribute__((aligned(64)));
static unsigned voff[NV];
static struct pbt* P;
static volatile uint64_t uniq;
static volatile int aborted;
static uint8_t sched[400];
static pthread_mutex_t rec = PTHREAD_MUTEX_INITIALIZER;

static void* addr(int v) { return arena + voff[v]; }

static struct ser_tx* new_rec(int t)
{
    pthread_mutex_lock(&rec);
    if (ser_n >= SER_MAXTX) pbt_inconclusive(P, "history-too-long");
    struct ser_tx* r = &ser_tx[ser_n++];
    memset(r, 0, sizeof(*r));
    r->thread = t;
    r->end = ~0ull;
    r->begin = mt_tick();
    pthread_mutex_unlock(&rec);
    return r;
}

static bool own(struct ser_tx* r, int v, uint64_t got)
{
    for (int i = 0; i < r->nwrites; ++i)
        if (r->w[i].var == v) {
            if (r->w[i].val != got)
                pbt_fail(P, "own-write", "thread %d reads %llx from v%d after writing %llx itself",
                         r->thread, (unsigned long long)got, v, (unsigned long long)r->w[i].val);
            return true;
        }
    return false;
}

static __thread struct ser_tx* volatile R;

static void run_tx(int t, struct tx* x)
{
    R = NULL;
    picotm_begin
        mt_attempt(P, R != NULL, picotm_is_irrevocable());
        if (R) { R->end = mt_tick(); aborted = 1; }
        R = new_rec(t);
        if (x->irrev && !picotm_is_irrevocable()) {
            R->end = mt_tick();
            picotm_irrevocable();
        }
        for (int i = 0; i < x->n; ++i) {
            struct op* o = &x->op[i];
            uint64_t val = 0;
            mt_point();
            switch (o->k) {
            case K_LOAD:
                load_tx(addr(o->v), &val, 8);
                if (!own(R, o->v, val)) ser_read(R, o->v, val);
                break;
            case K_STORE:
                val = (uint64_t)(t + 1) << 56 | __atomic_add_fetch(&uniq, 1, __ATOMIC_SEQ_CST) * 0x0101010101ull;
                store_tx(addr(o->v), &val, 8);
                ser_write(R, o->v, val);
                break;
            case K_PRIV_R:
                privatize_tx(addr(o->v), 8, PICOTM_TM_PRIVATIZE_LOAD);
                mt_point();
                memcpy(&val, addr(o->v), 8);
                if (!own(R, o->v, val)) ser_read(R, o->v, val);
                break;
            case K_PRIV_W:
                privatize_tx(addr(o->v), 8, PICOTM_TM_PRIVATIZE_LOADSTORE);
                memcpy(&val, addr(o->v), 8);
                if (!own(R, o->v, val)) ser_read(R, o->v, val);
                val = (uint64_t)(t + 1) << 56 | __atomic_add_fetch(&uniq, 1, __ATOMIC_SEQ_CST) * 0x0101010101ull;
                memcpy(addr(o->v), &val, 8);
                ser_write(R, o->v, val);
                mt_point();
                memcpy(&val, addr(o->v), 8);
                own(R, o->v, val);
                break;
            case K_LDST:
                load_tx(addr(o->v), &val, 8);
                if (!own(R, o->v, val)) ser_read(R, o->v, val);
                loadstore_tx(addr(o->v), addr(o->v2), 8);
                ser_write(R, o->v2, val);
                break;
            }
        }
        mt_point();
        if (x->fail) picotm_recover_from_error_code(PICOTM_GENERAL_ERROR);
    picotm_commit
        if (!x->fail) pbt_fail(P, "error", "unexpected recovery %d", picotm_error_status());
        R->end = mt_tick();
        mt_finished(); return;
    picotm_end
    mt_finished();
    R->end = mt_tick();
    R->committed = true;
}

static void body(int t)
{
    for (int i = 0; i < prog[t].n; ++i) run_tx(t, &prog[t].tx[i]);
    picotm_release();
}

static void dump(struct pbt* p)
{
    for (int i = 0; i < ser_n; ++i) {
        struct ser_tx* t = &ser_tx[i];
        pbt_trace(p, "  [%llu-%llu] T%d %s:", (unsigned long long)t->begin, (unsigned long long)t->end,
                  t->thread, t->committed ? "committed" : "aborted");
        for (int j = 0; j < t->nreads; ++j) pbt_trace(p, " r(v%d)=%llx", t->r[j].var, (unsigned long long)t->r[j].val);
        for (int j = 0; j < t->nwrites; ++j) pbt_trace(p, " w(v%d)=%llx", t->w[j].var, (unsigned long long)t->w[j].val);
        pbt_trace(p, "\n");
    }
}

static void case_sched(struct pbt* p)
{
    nthreads = 2 + pbt_draw(p, 3);
    nvars = 2 + pbt_draw(p, NV - 1);
    unsigned off = 64 + pbt_draw(p, 8);
    bool packed = pbt_chance(p, 1, 2);
    for (int i = 0; i < nvars; ++i) { voff[i] = off; off += packed ? 8 : 8 + pbt_draw(p, 32); }
    static const char* const kn[] = { "load", "store", "priv-r", "priv-rw", "copy" };
    int acc[NV] = { 0 }, wr[NV] = { 0 };
    for (int t = 0; t < nthreads; ++t) {
        prog[t].n = 1 + pbt_draw(p, MAXTX);
        pbt_trace(p, "T%d:", t);
        for (int i = 0; i < prog[t].n; ++i) {
            struct tx* x = &prog[t].tx[i];
            x->n = 1 + pbt_draw(p, MAXOP);
            x->irrev = pbt_chance(p, 1, 12);
            x->fail = pbt_chance(p, 1, 12);
            pbt_trace(p, " {%s%s", x->irrev ? "irrevocable " : "", x->fail ? "fails " : "");
            for (int j = 0; j < x->n; ++j) {
                struct op* o = &x->op[j];
                o->k = PBT_W(p, 6, 5, 2, 3, 1);
                o->v = pbt_draw(p, nvars);
                o->v2 = pbt_draw(p, nvars);
                if (o->k == K_LDST && o->v == o->v2) o->k = K_LOAD;
                acc[o->v] |= 1 << t;
                if (o->k == K_STORE || o->k == K_PRIV_W) wr[o->v] |= 1 << t;
                pbt_trace(p, " %s v%d", kn[o->k], o->v);
            }
            pbt_trace(p, "}");
        }
        pbt_trace(p, "\n");
    }
    int ns = FINE ? 0 : mt_gen_sched(p, sched, sizeof(sched));
    memset(arena, 0, sizeof(arena));
    memset(ser_init, 0, sizeof(ser_init));
    ser_n = 0;
    ser_nvars = nvars;
    uniq = 0;
    aborted = 0;
    mt_clock = 0;
    for (int i = 0; i < nvars; ++i) {
        ser_init[i] = 0xabc0 + i;
        memcpy(addr(i), &ser_init[i], 8);
    }
    if (!strcmp(pbt_mode, "race")) mt_stress(nthreads, body);
    else mt_run(nthreads, body, sched, ns);
    for (int i = 0; i < nvars; ++i) memcpy(&ser_final[i], addr(i), 8);
    bool shared = false;
    for (int i = 0; i < nvars; ++i) if (wr[i] && (acc[i] & (acc[i] - 1))) shared = true;
    if (aborted || shared) pbt_nontrivial(p);
    if (aborted) pbt_label(p, "conflict");
    int r = ser_check();
    if (r == -1) return;
    dump(p);
    if (r == -2) pbt_fail(p, "not-serializable", "no serial order explains the committed transactions");
    pbt_fail(p, "inconsistent-view", "aborted attempt %d saw a state that no serial order explains", r);
}

/* ---- stress ---- */
static int st_n, st_tx, st_vars;
static uint32_t st_seed[16];
static const uint64_t TOTAL = 1000000;
static volatile long st_commits, st_restarts;

static uint32_t rnd(uint32_t* s) { *s = *s * 1664525u + 1013904223u; return *s >> 8; }

static void stress_body(int t)
{
    static __thread volatile uint32_t s, s0;
    static __thread volatile int i, n;
    static __thread volatile bool first;
    s = st_seed[t];
    for (i = 0; i < st_tx; ++i) {
        s0 = s;
        first = true;
        uint32_t kind = (s0 >> 8) % 16;
        picotm_begin
            uint32_t q = s0;
            if (!first) __atomic_add_fetch(&st_restarts, 1, __ATOMIC_RELAXED);
            first = false;
            if (kind == 15 && !picotm_is_irrevocable()) picotm_irrevocable();
            int a = rnd(&q) % st_vars, b = rnd(&q) % st_vars;
            uint64_t amount = rnd(&q) % 50;
            if (kind < 4) {                     /* read everything */
                uint64_t sum = 0;
                for (int k = 0; k < st_vars; ++k) {
                    int v = (k + a) % st_vars;
                    uint64_t x;
                    if (kind & 1) {
                        privatize_tx(addr(v), 8, PICOTM_TM_PRIVATIZE_LOAD);
                        memcpy(&x, addr(v), 8);
                    } else {
                        load_tx(addr(v), &x, 8);
                    }
                    sum += x;
                }
                if (sum != TOTAL)
                    pbt_fail(P, "invariant", "thread %d tx %d saw sum %llu instead of %llu", t, i,
                             (unsigned long long)sum, (unsigned long long)TOTAL);
            } else if (a != b) {
                uint64_t x, y;
                if (kind < 10) {
                    load_tx(addr(a), &x, 8);
                    x -= amount;
                    store_tx(addr(a), &x, 8);
                    load_tx(addr(b), &y, 8);
                    y += amount;
                    store_tx(addr(b), &y, 8);
                } else {
                    privatize_tx(addr(a), 8, PICOTM_TM_PRIVATIZE_LOADSTORE);
                    memcpy(&x, addr(a), 8);
                    x -= amount;
                    memcpy(addr(a), &x, 8);
                    if (kind == 14) picotm_recover_from_error_code(PICOTM_GENERAL_ERROR);
                    privatize_tx(addr(b), 8, PICOTM_TM_PRIVATIZE_LOADSTORE);
                    memcpy(&y, addr(b), 8);
                    y += amount;
                    memcpy(addr(b), &y, 8);
                }
            }
        picotm_commit
            if (kind != 14) pbt_fail(P, "error", "unexpected recovery %d", picotm_error_status());
        picotm_end
        uint32_t q = s0;
        for (int k = 0; k < 4; ++k) rnd(&q);
        s = q;
        __atomic_add_fetch(&st_commits, 1, __ATOMIC_RELAXED);
    }
    picotm_release();
}

static void case_stress(struct pbt* p)
{
    st_n = 2 + pbt_draw(p, 7);
    st_vars = 2 + pbt_draw(p, NV - 1);
    st_tx = 50 + pbt_draw(p, 400);
    unsigned off = 64 + pbt_draw(p, 8);
    for (int i = 0; i < st_vars; ++i) { voff[i] = off; off += 8 + pbt_draw(p, 24); }
    for (int i = 0; i < st_n; ++i) st_seed[i] = pbt_draw(p, 1u << 31);
    memset(arena, 0, sizeof(arena));
    for (int i = 0; i < st_vars; ++i) {
        uint64_t v = i ? 0 : TOTAL;
        memcpy(addr(i), &v, 8);
    }
    st_restarts = 0;
    mt_stress(st_n, stress_body);
    uint64_t sum = 0;
    for (int i = 0; i < st_vars; ++i) { uint64_t v; memcpy(&v, addr(i), 8); sum += v; }
    pbt_check(p, sum == TOTAL, "invariant", "final sum %llu", (unsigned long long)sum);
    for (unsigned i = 0; i < sizeof(arena); ++i) {
        bool in = false;
        for (int v = 0; v < st_vars; ++v) in |= i >= voff[v] && i < voff[v] + 8;
        if (!in) pbt_check(p, !arena[i], "outside", "byte %u between the variables changed", i);
    }
    pbt_trace(p, "%d threads x %d tx on %d vars: %ld restarts\n", st_n, st_tx, st_vars, st_restarts);
    if (st_restarts) pbt_nontrivial(p);
}

void prop_case(struct pbt* p)
{
    P = p;
    if (!strcmp(pbt_mode, "stress")) case_stress(p);
    else case_sched(p);
}
