/* T05: containers shared by threads. Every attempt's operations and results are recorded; the
 * committed ones must be explained by a serial order that respects real time, and the ones of
 * aborted attempts by some state on the way. Modes: sched (generated operation-level schedules),
 * race (free-running threads), stress (long free runs with conservation invariants). */
#define _GNU_SOURCE
#include "mt.h"
#include <picotm/picotm.h>
#include <picotm/picotm-module.h>
#include <picotm/picotm-txlib.h>
#include <picotm/picotm-txlist.h>
#include <picotm/picotm-txlist-state.h>
#include <picotm/picotm-txmultiset.h>
#include <picotm/picotm-txmultiset-state.h>
#include <picotm/picotm-txqueue.h>
#include <picotm/picotm-txqueue-state.h>
#include <picotm/picotm-txstack.h>
#include <picotm/picotm-txstack-state.h>

int prop_flaky_ok = 1;
int prop_batch = 50;
int prop_timeout_ms = 30000;
const char prop_rule[] =
    "sched: 2-4 threads x 1-3 transactions x 1-5 operations (push/insert/pop/erase/move of elements between "
    "containers of any kinds and a private pool, size, empty, front/back/top, iteration, find, count) on 2-3 "
    "shared containers, under a generated operation-level schedule, some transactions irrevocable or failing; "
    "race: the same with free-running threads and up to 5 transactions; stress: 2-8 threads move elements "
    "around hundreds of times. Oracle: search for a serial order over sequence models that explains all "
    "results (strict serialisability), consistency of aborted attempts, final drain. Non-trivial: an attempt "
    "was restarted, or two threads committed changes to the same container.";

enum { NC = 3, NE = 10, MAXT = 4, MAXTX = 5, MAXOP = 5, ROPS = 64, MAXREC = 60 };
enum { LIST, MSET, QUEUE, STACK };
static const char* const kindname[] = { "list", "multiset", "queue", "stack" };
struct item { int id, key; struct txlist_entry l; struct txmultiset_entry m; struct txqueue_entry q; struct txstack_entry s; };
#define ITEM(p, f) ((struct item*)((char*)(p) - offsetof(struct item, f)))
static struct item it[64];
static union { struct txlist_state l; struct txmultiset_state m; struct txqueue_state q; struct txstack_state s; } st[8];
static int kind[8], nc;

enum { R_SIZE, R_EMPTY, R_FIRST, R_LAST, R_PREFIX, R_TAKE, R_POP, R_POPBACK, R_PUT, R_PUTFRONT, R_PUTBEFORE, R_COUNT, R_FIND, R_UPPER };
static const char* const rname[] = { "size", "empty", "first", "last", "prefix", "erase", "pop", "pop_back", "put", "put_front", "put_before", "count", "find", "upper_bound" };
struct rop { int8_t k, c, a, b; int8_t n; int8_t seq[NE + 1]; };
static struct pbt* P;

/* ---- model ---- */
struct model { int8_t n[NC], s[NC][NE]; };

static bool hist_apply(struct model* m, const struct rop* o)
{
    int c = o->c, n = m->n[c];
    int8_t* s = m->s[c];
    int pos = -1;
    for (int i = 0; i < n; ++i) if (s[i] == o->a) pos = i;
    switch (o->k) {
    case R_SIZE: return o->a == n;
    case R_EMPTY: return o->a == !n;
    case R_FIRST: return n && (kind[c] == MSET ? it[o->a].key == it[s[0]].key && pos >= 0 : s[0] == o->a);
    case R_LAST: return n && s[n - 1] == o->a;
    case R_PREFIX:
        if (o->n > n || (o->b && o->n != n)) return false;
        for (int i = 0; i < o->n; ++i) {
            if (kind[c] != MSET) { if (s[i] != o->seq[i]) return false; continue; }
            if (it[s[i]].key != it[o->seq[i]].key) return false;
            bool in = false;
            for (int j = 0; j < n; ++j) in |= s[j] == o->seq[i];
            for (int j = 0; j < i; ++j) if (o->seq[j] == o->seq[i]) in = false;
            if (!in) return false;
        }
        return true;
    case R_POP: if (!n) return false; pos = 0; goto take;
    case R_POPBACK: if (!n) return false; pos = n - 1; goto take;
    case R_TAKE:
        if (pos < 0) return false;
take:   memmove(s + pos, s + pos + 1, n - pos - 1);
        m->n[c]--;
        return true;
    case R_PUT: case R_PUTFRONT: case R_PUTBEFORE:
        if (pos >= 0 || n >= NE) return false;
        pos = o->k == R_PUT ? n : 0;
        if (kind[c] == STACK) pos = 0;
        if (kind[c] == MSET) { pos = 0; while (pos < n && it[s[pos]].key < it[o->a].key) ++pos; }
        if (o->k == R_PUTBEFORE) { pos = -1; for (int i = 0; i < n; ++i) if (s[i] == o->b) pos = i; if (pos < 0) return false; }
        memmove(s + pos + 1, s + pos, n - pos);
        s[pos] = o->a;
        m->n[c]++;
        return true;
    case R_COUNT: { int k = 0; for (int i = 0; i < n; ++i) k += it[s[i]].key == o->a; return k == o->b; }
    case R_FIND: {
        if (o->b < 0) { for (int i = 0; i < n; ++i) if (it[s[i]].key == o->a) return false; return true; }
        for (int i = 0; i < n; ++i) if (s[i] == o->b) return it[o->b].key == o->a;
        return false;
    }
    case R_UPPER: {
        int has = 0, up = -1;
        for (int i = 0; i < n; ++i) { has |= it[s[i]].key == o->a; if (it[s[i]].key > o->a && (up < 0 || it[s[i]].key < it[up].key)) up = s[i]; }
        if (!has) up = -1;
        if (o->b < 0 || up < 0) return o->b == up;
        for (int i = 0; i < n; ++i) if (s[i] == o->b) return it[o->b].key == it[up].key;
        return false;
    }
    }
    return false;
}
static uint64_t hist_hash(uint64_t mask, const struct model* m)
{
    uint64_t h = mask * 0x9e3779b97f4a7c15ull + 77;
    for (int c = 0; c < nc; ++c) {
        h = (h ^ m->n[c]) * 0x100000001b3ull;
        for (int i = 0; i < m->n[c]; ++i) h = (h ^ (m->s[c][i] + 7)) * 0x100000001b3ull;
        h ^= h >> 29;
    }
    return h * 0xbf58476d1ce4e5b9ull | 1;
}
#include "hist.h"
static struct model init;

/* ---- program ---- */
struct op { int k; unsigned c, c2, a, b; };
struct tx { int n; struct op op[MAXOP]; bool irrev, fail; };
static struct { int n; struct tx tx[MAXTX]; } prog[MAXT];
static int pool[MAXT][NE], npool[MAXT];
static int nthreads;
static volatile int aborted;
static uint8_t sched[300];
static pthread_barrier_t bar;
static bool race;

static __thread struct rec* volatile R;
static __thread int lpool[NE];
static __thread volatile int lnpool;

static struct rop* note(int k, int c, int a, int b)
{
    if (R->n >= ROPS) pbt_inconclusive(P, "ops");
    struct rop* o = &R->op[R->n];
    o->k = k; o->c = c; o->a = a; o->b = b; o->n = 0;
    __atomic_store_n(&R->n, R->n + 1, __ATOMIC_RELEASE);
    return o;
}
static int id_of(struct item* i)
{
    if (i < it || i >= it + 64 || i->id != i - it) pbt_fail(P, "entry", "thread %d got something that is no entry", R ? R->thread : -1);
    return i - it;
}

static int empty(int c)
{
    switch (kind[c]) {
    case LIST: return txlist_empty_tx(txlist_of_state_tx(&st[c].l));
    case MSET: return txmultiset_empty_tx(txmultiset_of_state_tx(&st[c].m));
    case QUEUE: return txqueue_empty_tx(txqueue_of_state_tx(&st[c].q));
    default: return txstack_empty_tx(txstack_of_state_tx(&st[c].s));
    }
}
static int size(int c)
{
    switch (kind[c]) {
    case LIST: return txlist_size_tx(txlist_of_state_tx(&st[c].l));
    case MSET: return txmultiset_size_tx(txmultiset_of_state_tx(&st[c].m));
    case QUEUE: return txqueue_size_tx(txqueue_of_state_tx(&st[c].q));
    default: return txstack_size_tx(txstack_of_state_tx(&st[c].s));
    }
}
static int first(int c)
{
    switch (kind[c]) {
    case LIST: return id_of(ITEM(txlist_front_tx(txlist_of_state_tx(&st[c].l)), l));
    case MSET: return id_of(ITEM(txmultiset_begin_tx(txmultiset_of_state_tx(&st[c].m)), m));
    case QUEUE: return id_of(ITEM(txqueue_front_tx(txqueue_of_state_tx(&st[c].q)), q));
    default: return id_of(ITEM(txstack_top_tx(txstack_of_state_tx(&st[c].s)), s));
    }
}
/* iterates over up to max entries (lists, multisets) */
static int prefix(int c, int max, int8_t* seq, int* end)
{
    int n = 0;
    *end = 0;
    if (kind[c] == LIST) {
        struct txlist* l = txlist_of_state_tx(&st[c].l);
        struct txlist_entry* e = txlist_begin_tx(l), *z = txlist_end_tx(l);
        for (; n < max && e != z; e = txlist_entry_next_tx(e)) seq[n++] = id_of(ITEM(e, l));
        *end = e == z;
    } else {
        struct txmultiset* l = txmultiset_of_state_tx(&st[c].m);
        struct txmultiset_entry* e = txmultiset_begin_tx(l), *z = txmultiset_end_tx(l);
        for (; n < max && e != z; e = txmultiset_entry_next_tx(e)) seq[n++] = id_of(ITEM(e, m));
        *end = e == z;
    }
    return n;
}
static void n_prefix(int c, int max, int8_t* seq, int* n)
{
    int end;
    *n = prefix(c, max, seq, &end);
    struct rop* o = note(R_PREFIX, c, -1, end);
    o->n = *n;
    memcpy(o->seq, seq, *n);
}
/* removes an entry from a non-empty container */
static int take(int c, int how)
{
    int8_t seq[NE + 1];
    int n, e;
    switch (kind[c]) {
    case LIST: {
        struct txlist* l = txlist_of_state_tx(&st[c].l);
        if (how % 3 == 0) { e = first(c); note(R_FIRST, c, e, 0); txlist_pop_front_tx(l); note(R_POP, c, e, 0); return e; }
        if (how % 3 == 1) { e = id_of(ITEM(txlist_back_tx(l), l)); note(R_LAST, c, e, 0); txlist_pop_back_tx(l); note(R_POPBACK, c, e, 0); return e; }
        n_prefix(c, 1 + how / 3 % 3, seq, &n);
        e = seq[n - 1];
        txlist_erase_tx(l, &it[e].l);
        break;
    }
    case MSET:
        n_prefix(c, 1 + how % 3, seq, &n);
        e = seq[n - 1];
        txmultiset_erase_tx(txmultiset_of_state_tx(&st[c].m), &it[e].m);
        break;
    case QUEUE: e = first(c); note(R_FIRST, c, e, 0); txqueue_pop_tx(txqueue_of_state_tx(&st[c].q)); note(R_POP, c, e, 0); return e;
    default: e = first(c); note(R_FIRST, c, e, 0); txstack_pop_tx(txstack_of_state_tx(&st[c].s)); note(R_POP, c, e, 0); return e;
    }
    note(R_TAKE, c, e, 0);
    return e;
}
static void put(int c, int e, int how)
{
    switch (kind[c]) {
    case LIST: {
        struct txlist* l = txlist_of_state_tx(&st[c].l);
        int8_t seq[NE + 1];
        int n = 0;
        if (how % 3 == 2) n_prefix(c, 1 + how / 3 % 3, seq, &n);
        if (n) { txlist_insert_tx(l, &it[e].l, &it[seq[n - 1]].l); note(R_PUTBEFORE, c, e, seq[n - 1]); }
        else if (how % 3) { txlist_push_front_tx(l, &it[e].l); note(R_PUTFRONT, c, e, 0); }
        else { txlist_push_back_tx(l, &it[e].l); note(R_PUT, c, e, 0); }
        return;
    }
    case MSET: txmultiset_insert_tx(txmultiset_of_state_tx(&st[c].m), &it[e].m); break;
    case QUEUE: txqueue_push_tx(txqueue_of_state_tx(&st[c].q), &it[e].q); break;
    default: txstack_push_tx(txstack_of_state_tx(&st[c].s), &it[e].s); break;
    }
    note(R_PUT, c, e, 0);
}

enum { O_MOVE, O_PUT, O_TAKE, O_SIZE, O_EMPTY, O_FIRST, O_WALK, O_COUNT, O_FIND, O_ENDS };
static const char* const oname[] = { "move", "put", "take", "size", "empty", "first", "walk", "count", "find", "ends" };
static __thread volatile int keybuf;

static void do_op(struct op* o)
{
    int c = o->c % nc, c2 = o->c2 % nc, e, n;
    int8_t seq[NE + 1];
    switch (o->k) {
    case O_MOVE: case O_TAKE: case O_FIRST:
        e = empty(c);
        note(R_EMPTY, c, e, 0);
        if (e) return;
        if (o->k == O_FIRST) { e = first(c); note(R_FIRST, c, e, 0); return; }
        e = take(c, o->a);
        if (o->k == O_TAKE) { lpool[lnpool] = e; lnpool = lnpool + 1; return; }
        if (!race) mt_point();
        put(c2, e, o->b);
        return;
    case O_PUT:
        if (!lnpool) return;
        lnpool = lnpool - 1;
        put(c, lpool[lnpool], o->a);
        return;
    case O_SIZE: n = size(c); note(R_SIZE, c, n > 100 ? 100 : n, 0); return;
    case O_EMPTY: e = empty(c); note(R_EMPTY, c, e, 0); return;
    case O_WALK: if (kind[c] == LIST || kind[c] == MSET) n_prefix(c, NE, seq, &n); return;
    case O_COUNT: case O_FIND:
        if (kind[c] != MSET) return;
        keybuf = o->a % 4;
        struct txmultiset* l = txmultiset_of_state_tx(&st[c].m);
        if (o->k == O_COUNT) { n = txmultiset_count_tx(l, (void*)&keybuf); note(R_COUNT, c, o->a % 4, n > 100 ? 100 : n); return; }
        struct txmultiset_entry* r = o->b % 3 == 0 ? txmultiset_find_tx(l, (void*)&keybuf) :
            o->b % 3 == 1 ? txmultiset_lower_bound_tx(l, (void*)&keybuf) : txmultiset_upper_bound_tx(l, (void*)&keybuf);
        e = r == txmultiset_end_tx(l) ? -1 : id_of(ITEM(r, m));
        note(o->b % 3 == 2 ? R_UPPER : R_FIND, c, o->a % 4, e);
        return;
    case O_ENDS: {      /* of a list that may be empty */
        if (kind[c] != LIST) return;
        struct txlist* l = txlist_of_state_tx(&st[c].l);
        struct txlist_entry* x = o->a & 1 ? txlist_back_tx(l) : txlist_front_tx(l);
        if (x == txlist_end_tx(l)) { note(R_EMPTY, c, 1, 0); return; }
        e = id_of(ITEM(x, l));
        note(o->a & 1 ? R_LAST : R_FIRST, c, e, 0);
        return;
    }
    }
}

__attribute__((noinline)) static void run_tx(int t, struct tx* x)
{
    static __thread volatile int i;
    R = NULL;
    picotm_begin
        mt_attempt(P, R != NULL, picotm_is_irrevocable());
        if (R) { R->end = mt_tick(); aborted = 1; }
        R = new_rec(t);
        memcpy(lpool, pool[t], sizeof(lpool));
        lnpool = npool[t];
        if (x->irrev && !picotm_is_irrevocable()) picotm_irrevocable();
        for (i = 0; i < x->n; ++i) {
            if (!race) mt_point();
            do_op(&x->op[i]);
        }
        if (!race) mt_point();
        if (x->fail) picotm_recover_from_error_code(PICOTM_GENERAL_ERROR);
    picotm_commit
        if (!x->fail) pbt_fail(P, "error", "unexpected recovery %d", picotm_error_status());
        R->end = mt_tick();
        mt_finished(); return;
    picotm_end
    mt_finished();
    R->end = mt_tick();
    R->committed = true;
    memcpy(pool[t], lpool, sizeof(lpool));
    npool[t] = lnpool;
}

static void body(int t)
{
    if (race) pthread_barrier_wait(&bar);
    for (int i = 0; i < prog[t].n; ++i) run_tx(t, &prog[t].tx[i]);
    picotm_release();
}

static const void* keyof(struct txmultiset_entry* e) { return &ITEM(e, m)->key; }
static int cmpkey(const void* a, const void* b) { int x = *(const int*)a, y = *(const int*)b; return x < y ? -1 : x > y; }

static void setup(int ne)
{
    for (int i = 0; i < ne; ++i) {
        it[i].id = i; it[i].key = i % 4;
        txlist_entry_init(&it[i].l); txqueue_entry_init(&it[i].q); txstack_entry_init(&it[i].s); txmultiset_entry_init(&it[i].m);
    }
    for (int c = 0; c < nc; ++c) switch (kind[c]) {
    case LIST: txlist_state_init(&st[c].l); break;
    case MSET: txmultiset_state_init(&st[c].m, keyof, cmpkey); break;
    case QUEUE: txqueue_state_init(&st[c].q); break;
    default: txstack_state_init(&st[c].s); break;
    }
}
static void teardown(void)
{
    for (int c = 0; c < nc; ++c) switch (kind[c]) {
    case LIST: txlist_state_uninit(&st[c].l); break;
    case MSET: txmultiset_state_uninit(&st[c].m); break;
    case QUEUE: txqueue_state_uninit(&st[c].q); break;
    default: txstack_state_uninit(&st[c].s); break;
    }
}

static void hist_print(struct pbt* p, const struct rop* o)
{
    if (o->k == R_PREFIX) {
        pbt_trace(p, " c%d=[", o->c);
        for (int k = 0; k < o->n; ++k) pbt_trace(p, "%d ", o->seq[k]);
        pbt_trace(p, o->b ? "]" : "..");
    } else pbt_trace(p, " %s(c%d,%d,%d)", rname[(int)o->k], o->c, o->a, o->b);
}

/* thread -1 fills the containers at the start and drains them in the end */
__attribute__((noinline)) static void drain(void)
{
    R = NULL;
    picotm_begin
        if (R) R->end = mt_tick();
        R = new_rec(9);
        for (int c = 0; c < nc; ++c) {
            int n = size(c);
            note(R_SIZE, c, n > 100 ? 100 : n, 0);
            int8_t seq[NE + 1];
            if (kind[c] == LIST || kind[c] == MSET) n_prefix(c, NE + 1, seq, &n);
            else for (int k = 0; k <= NE && !empty(c); ++k) take(c, 0);
        }
        for (int c = 0; c < nc; ++c) while (R->n < ROPS - 4 && !empty(c)) take(c, 0);
    picotm_commit
        pbt_fail(P, "error", "recovery %d in the final transaction", picotm_error_status());
    picotm_end
    R->end = mt_tick();
    R->committed = true;
}
__attribute__((noinline)) static void fill(int n)
{
    R = NULL;
    picotm_begin
        if (!R) R = new_rec(8);
        R->n = 0;
        for (int i = 0; i < n; ++i) put(i % nc, i, 0);
    picotm_commit
    picotm_end
    R->end = mt_tick();
    R->committed = true;
}

static void case_hist(struct pbt* p)
{
    nc = 2 + pbt_draw(p, NC - 1);
    nthreads = 2 + pbt_draw(p, MAXT - 1);
    for (int c = 0; c < nc; ++c) { kind[c] = pbt_draw(p, 4); pbt_trace(p, "c%d: %s; ", c, kindname[kind[c]]); }
    int ne = NE, inside = pbt_draw(p, 7), next = inside;
    for (int t = 0; t < nthreads; ++t) npool[t] = 0;
    for (int t = 0; next < ne; ++next, ++t) { pool[t % nthreads][npool[t % nthreads]] = next; npool[t % nthreads]++; }
    pbt_trace(p, "%d elements inside\n", inside);
    int maxtx = race ? MAXTX : 3;
    for (int t = 0; t < nthreads; ++t) {
        prog[t].n = 1 + pbt_draw(p, maxtx);
        pbt_trace(p, "T%d:", t);
        for (int i = 0; i < prog[t].n; ++i) {
            struct tx* x = &prog[t].tx[i];
            x->n = 1 + pbt_draw(p, MAXOP);
            x->irrev = pbt_chance(p, 1, 14);
            x->fail = pbt_chance(p, 1, 12);
            pbt_trace(p, " {%s%s", x->irrev ? "irrevocable " : "", x->fail ? "fails " : "");
            for (int j = 0; j < x->n; ++j) {
                struct op* o = &x->op[j];
                o->k = PBT_W(p, 4, 4, 4, 2, 1, 2, 2, 1, 2, 1);
                o->c = pbt_draw(p, nc); o->c2 = pbt_draw(p, nc);
                o->a = pbt_draw(p, 36); o->b = pbt_draw(p, 36);
                pbt_trace(p, " %s(c%u", oname[o->k], o->c);
                if (o->k == O_MOVE) pbt_trace(p, "->c%u", o->c2);
                pbt_trace(p, ")");
            }
            pbt_trace(p, "}");
        }
        pbt_trace(p, "\n");
    }
    int ns = race ? 0 : mt_gen_sched(p, sched, sizeof(sched));
    setup(ne);
    nrec = 0; aborted = 0; mt_clock = 0;
    memset(&init, 0, sizeof init);
    fill(inside);
    if (race) {
        pthread_barrier_init(&bar, NULL, nthreads);
        mt_stress(nthreads, body);
        pthread_barrier_destroy(&bar);
    } else mt_run(nthreads, body, sched, ns);
    drain();
    teardown();

    int chg[NC] = { 0 };
    for (int i = 0; i < nrec; ++i) if (recs[i].committed && recs[i].thread < 8)
        for (int j = 0; j < recs[i].n; ++j) if (recs[i].op[j].k >= R_TAKE && recs[i].op[j].k <= R_PUTBEFORE) chg[recs[i].op[j].c] |= 1 << recs[i].thread;
    for (int c = 0; c < nc; ++c) if (chg[c] & (chg[c] - 1)) pbt_nontrivial(p);
    if (aborted) { pbt_nontrivial(p); pbt_label(p, "conflict"); }
    if (!mt_lone()) hist_check(p, &init);
}

/* ---- stress ---- */
static int st_ne, st_tx;
static uint32_t st_seed[16];
static volatile long st_restarts;
static uint32_t rnd(uint32_t* s) { *s = *s * 1664525u + 1013904223u; return *s >> 8; }
static __thread struct rec dummy;

static void stress_body(int t)
{
    static __thread volatile uint32_t s, s0;
    static __thread volatile int i, first_try;
    s = st_seed[t];
    for (i = 0; i < st_tx; ++i) {
        s0 = s;
        first_try = 1;
        uint32_t kd = (s0 >> 8) % 16;
        R = &dummy;
        picotm_begin
            uint32_t q = s0;
            if (!first_try) __atomic_add_fetch(&st_restarts, 1, __ATOMIC_RELAXED);
            first_try = 0;
            dummy.n = 0;
            if (kd == 15 && !picotm_is_irrevocable()) picotm_irrevocable();
            if (kd < 3) {
                int sum = 0, off = rnd(&q);
                for (int c = 0; c < nc; ++c) sum += size((c + off) % nc);
                if (sum != st_ne) pbt_fail(P, "invariant", "thread %d tx %d saw %d elements instead of %d", t, i, sum, st_ne);
            } else {
                int m = 1 + rnd(&q) % 3;
                for (int k = 0; k < m; ++k) {
                    int c = rnd(&q) % nc, c2 = rnd(&q) % nc, how = rnd(&q) % 36;
                    if (empty(c)) continue;
                    int e = take(c, how);
                    put(c2, e, how / 2);
                }
                if (kd == 14) picotm_recover_from_error_code(PICOTM_GENERAL_ERROR);
            }
        picotm_commit
            if (kd != 14) pbt_fail(P, "error", "unexpected recovery %d", picotm_error_status());
        picotm_end
        uint32_t q = s0;
        for (int k = 0; k < 12; ++k) rnd(&q);
        s = q;
    }
    picotm_release();
}

static volatile unsigned char found[64];
__attribute__((noinline)) static void st_fill(void)
{
    R = &dummy;
    picotm_begin
        dummy.n = 0;
        for (int i = 0; i < st_ne; ++i) { dummy.n = 0; put(i % nc, i, 0); }
    picotm_commit
        pbt_fail(P, "error", "recovery %d while filling", picotm_error_status());
    picotm_end
}
__attribute__((noinline)) static void st_drain(void)
{
    R = &dummy;
    picotm_begin
        memset((void*)found, 0, sizeof found);
        for (int c = 0; c < nc; ++c) for (int k = 0; k < 64 && !empty(c); ++k) { dummy.n = 0; found[take(c, 0)]++; }
    picotm_commit
        pbt_fail(P, "error", "recovery %d while draining", picotm_error_status());
    picotm_end
}

static void case_stress(struct pbt* p)
{
    int n = 2 + pbt_draw(p, 7);
    nc = 2 + pbt_draw(p, NC - 1);
    for (int c = 0; c < nc; ++c) { kind[c] = pbt_draw(p, 4); pbt_trace(p, "c%d: %s; ", c, kindname[kind[c]]); }
    st_ne = 1 + pbt_draw(p, 24);
    st_tx = 20 + pbt_draw(p, 200);
    for (int i = 0; i < n; ++i) st_seed[i] = pbt_draw(p, 1u << 31);
    setup(st_ne);
    st_restarts = 0;
    st_fill();
    mt_stress(n, stress_body);
    st_drain();
    teardown();
    for (int i = 0; i < st_ne; ++i) if (found[i] != 1) pbt_fail(p, "lost", "element %d is %d times in the containers", i, found[i]);
    pbt_trace(p, "%d threads x %d tx, %d elements: %ld restarts\n", n, st_tx, st_ne, st_restarts);
    if (st_restarts) pbt_nontrivial(p);
}

void prop_case(struct pbt* p)
{
    P = p;
    race = !strcmp(pbt_mode, "race");
    if (!strcmp(pbt_mode, "stress")) case_stress(p);
    else case_hist(p);
}
