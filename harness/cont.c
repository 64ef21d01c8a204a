/* T01-T04 (modes list, multiset, queue, stack): transactional containers against sequence models. */
#include "pbt.h"
#include <picotm/picotm-txlib.h>
#include <picotm/picotm-txlist.h>
#include <picotm/picotm-txlist-state.h>
#include <picotm/picotm-txmultiset.h>
#include <picotm/picotm-txmultiset-state.h>
#include <picotm/picotm-txqueue.h>
#include <picotm/picotm-txqueue-state.h>
#include <picotm/picotm-txstack.h>
#include <picotm/picotm-txstack-state.h>

const char prop_rule[] =
    "2 containers, 16 entries, 1-6 transactions with 1-40 operations per attempt (insert/push at every "
    "position, erase/pop, clear, front/back/top, size, empty, forward and backward iteration, find, "
    "bounds, count, moving entries between containers) and endings commit, error, conflict retry, "
    "irrevocability, recovery+restart. Oracle: array model per container, compared inside the "
    "transaction, after each roll-back and commit, and by the final clean-up. Non-trivial: at least "
    "one committed and one rolled-back attempt that each changed a container, or (multiset) equal keys "
    "present while erasing or measuring.";

enum { NC = 2, NE = 16, ATT_MAXOPS = 40 };
struct aop { int k; unsigned c, a, b; };
#include "att.h"

struct item {
    int id, key;
    union { struct txlist_entry l; struct txmultiset_entry m; struct txqueue_entry q; struct txstack_entry s; } e;
};
enum { LIST, MSET, QUEUE, STACK };
static int kind;
static struct item it[NE];
static union { struct txlist_state l; struct txmultiset_state m; struct txqueue_state q; struct txstack_state s; } st[NC];
struct model { int n[NC]; int s[NC][NE]; };
static struct model com, view;
static int changed_c, changed_r, changed, dups;
static int keyrange;

static const void* keyof(struct txmultiset_entry* e) { return &((struct item*)((char*)e - offsetof(struct item, e)))->key; }
static int cmpkey(const void* a, const void* b) { int x = *(const int*)a, y = *(const int*)b; return x < y ? -1 : x > y; }
#define ITEM(p) ((struct item*)((char*)(p) - offsetof(struct item, e)))

static void seq(char* o, const int* s, int n)
{
    *o++ = '[';
    for (int i = 0; i < n; ++i) o += kind == MSET ? sprintf(o, "%d:%d ", s[i], it[s[i]].key) : sprintf(o, "%d ", s[i]);
    strcpy(o, "]");
}

static void differ(const char* what, int c, const int* got, int ng)
{
    char a[400], b[400];
    seq(a, got, ng);
    seq(b, view.s[c], view.n[c]);
    pbt_fail(P, "contents", "attempt %d container %d: %s gives %s, model %s", att_cur, c, what, a, b);
}

/* compares a sequence with the model; a multiset's equal keys may come in any order */
static void same(const char* what, int c, int* got, int ng)
{
    if (ng != view.n[c]) differ(what, c, got, ng);
    if (kind != MSET) {
        for (int i = 0; i < ng; ++i) if (got[i] != view.s[c][i]) differ(what, c, got, ng);
        return;
    }
    unsigned seen = 0, want = 0;
    for (int i = 0; i < ng; ++i) {
        if (i && it[got[i - 1]].key > it[got[i]].key) differ(what, c, got, ng);
        seen |= 1u << got[i];
        want |= 1u << view.s[c][i];
    }
    if (seen != want || __builtin_popcount(seen) != ng) differ(what, c, got, ng);
}

static int idx(const void* e, const char* what)
{
    int i = ITEM(e) - it;
    if ((char*)e < (char*)it || (char*)e >= (char*)(it + NE) || &it[i].e != (void*)e)
        pbt_fail(P, "entry", "attempt %d: %s returned something that is no entry", att_cur, what);
    return i;
}

static int where(int e)
{
    for (int c = 0; c < NC; ++c) for (int i = 0; i < view.n[c]; ++i) if (view.s[c][i] == e) return c;
    return -1;
}

static void m_insert(int c, int pos, int e)
{
    if (kind == MSET) { pos = 0; while (pos < view.n[c] && it[view.s[c][pos]].key < it[e].key) ++pos; }
    memmove(&view.s[c][pos + 1], &view.s[c][pos], (view.n[c] - pos) * sizeof(int));
    view.s[c][pos] = e;
    view.n[c]++;
    changed = 1;
}

static int m_erase(int c, int pos)
{
    int e = view.s[c][pos];
    memmove(&view.s[c][pos], &view.s[c][pos + 1], (view.n[c] - pos - 1) * sizeof(int));
    view.n[c]--;
    changed = 1;
    return e;
}

static void walk(int c)
{
    int got[NE + 2], n = 0;
    if (kind == LIST) {
        struct txlist* l = txlist_of_state_tx(&st[c].l);
        struct txlist_entry* end = txlist_end_tx(l);
        for (struct txlist_entry* e = txlist_begin_tx(l); e != end && n <= NE; e = txlist_entry_next_tx(e)) got[n++] = idx(e, "iteration");
        same("iteration", c, got, n);
        struct txlist_entry* b = txlist_begin_tx(l);
        n = 0;
        for (struct txlist_entry* e = end; e != b && n <= NE; ) { e = txlist_entry_prev_tx(e); got[n++] = idx(e, "backward iteration"); }
    } else if (kind == MSET) {
        struct txmultiset* l = txmultiset_of_state_tx(&st[c].m);
        struct txmultiset_entry* end = txmultiset_end_tx(l);
        for (struct txmultiset_entry* e = txmultiset_begin_tx(l); e != end && n <= NE; e = txmultiset_entry_next_tx(e)) got[n++] = idx(e, "iteration");
        same("iteration", c, got, n);
        struct txmultiset_entry* b = txmultiset_begin_tx(l);
        n = 0;
        for (struct txmultiset_entry* e = end; e != b && n <= NE; ) { e = txmultiset_entry_prev_tx(e); got[n++] = idx(e, "backward iteration"); }
    } else return;
    for (int i = 0; i < n / 2; ++i) { int t = got[i]; got[i] = got[n - 1 - i]; got[n - 1 - i] = t; }
    same("backward iteration", c, got, n);
}

static bool hasdups(int c)
{
    if (kind != MSET) return false;
    for (int i = 1; i < view.n[c]; ++i) if (it[view.s[c][i]].key == it[view.s[c][i - 1]].key) return true;
    return false;
}

static void eq(const char* what, int c, long got, long want)
{
    if (got != want) pbt_fail(P, "result", "attempt %d container %d: %s is %ld, model %ld", att_cur, c, what, got, want);
}

static void op_list(struct aop* o, int c)
{
    struct txlist* l = txlist_of_state_tx(&st[c].l);
    int n = view.n[c], e = o->a % NE, in;
    switch (o->k % 12) {
    case 0: case 1: case 2: case 3:     /* add, taking it out of its container first */
        in = where(e);
        if (in >= 0) {
            int pos = 0;
            while (view.s[in][pos] != e) ++pos;
            pbt_trace(P, "erase(%d,%d) ", in, e);
            txlist_erase_tx(txlist_of_state_tx(&st[in].l), &it[e].e.l);
            m_erase(in, pos);
            n = view.n[c];
        }
        if (o->k == 0) { pbt_trace(P, "push_back(%d,%d) ", c, e); txlist_push_back_tx(l, &it[e].e.l); m_insert(c, n, e); }
        else if (o->k == 1) { pbt_trace(P, "push_front(%d,%d) ", c, e); txlist_push_front_tx(l, &it[e].e.l); m_insert(c, 0, e); }
        else {
            int pos = o->b % (n + 1);
            pbt_trace(P, "insert(%d,%d before #%d) ", c, e, pos);
            txlist_insert_tx(l, &it[e].e.l, pos < n ? &it[view.s[c][pos]].e.l : txlist_end_tx(l));
            m_insert(c, pos, e);
        }
        break;
    case 4: if (n) { int pos = o->a % n; pbt_trace(P, "erase(%d,#%d) ", c, pos); txlist_erase_tx(l, &it[view.s[c][pos]].e.l); m_erase(c, pos); } break;
    case 5: if (n) { pbt_trace(P, "pop_back(%d) ", c); txlist_pop_back_tx(l); m_erase(c, n - 1); } break;
    case 6: if (n) { pbt_trace(P, "pop_front(%d) ", c); txlist_pop_front_tx(l); m_erase(c, 0); } break;
    case 7: if (o->b % 4 == 0) { pbt_trace(P, "clear(%d) ", c); if (n) changed = 1; txlist_clear_tx(l); view.n[c] = 0; } break;
    case 8: eq("size", c, txlist_size_tx(l), n); break;
    case 9: eq("empty", c, txlist_empty_tx(l), !n); break;
    case 10: if (n) { eq("front", c, idx(txlist_front_tx(l), "front"), view.s[c][0]);
                      eq("back", c, idx(txlist_back_tx(l), "back"), view.s[c][n - 1]); } break;
    case 11: walk(c); break;
    }
}

static void op_mset(struct aop* o, int c)
{
    struct txmultiset* l = txmultiset_of_state_tx(&st[c].m);
    int n = view.n[c], e = o->a % NE, in, key = it[o->a % NE].key;
    static volatile int keybuf;
    keybuf = key;
    int cnt = 0, first = -1, larger = -1;
    for (int i = 0; i < n; ++i) {
        int k = it[view.s[c][i]].key;
        if (k == key) { if (first < 0) first = i; ++cnt; }
        if (k > key && larger < 0) larger = i;
    }
    switch (o->k % 12) {
    case 0: case 1: case 2:
        in = where(e);
        if (in >= 0) {
            int pos = 0;
            while (view.s[in][pos] != e) ++pos;
            pbt_trace(P, "erase(%d,%d) ", in, e);
            if (hasdups(in)) dups = 1;
            txmultiset_erase_tx(txmultiset_of_state_tx(&st[in].m), &it[e].e.m);
            m_erase(in, pos);
        }
        pbt_trace(P, "insert(%d,%d:%d) ", c, e, key);
        txmultiset_insert_tx(l, &it[e].e.m);
        m_insert(c, 0, e);
        break;
    case 3: case 4: if (n) { int pos = o->a % n; pbt_trace(P, "erase(%d,#%d) ", c, pos); if (hasdups(c)) dups = 1;
                    txmultiset_erase_tx(l, &it[view.s[c][pos]].e.m); m_erase(c, pos); } break;
    case 5: if (o->b % 4 == 0) { pbt_trace(P, "clear(%d) ", c); if (n) changed = 1; txmultiset_clear_tx(l); view.n[c] = 0; } break;
    case 6: eq("size", c, txmultiset_size_tx(l), n); eq("empty", c, txmultiset_empty_tx(l), !n); break;
    case 7: {
        pbt_trace(P, "find(%d,%d) ", c, key);
        struct txmultiset_entry* r = txmultiset_find_tx(l, (void*)&keybuf);
        if (r == txmultiset_end_tx(l)) { eq("number of entries with a key not found", c, 0, cnt); break; }
        int f = idx(r, "find");
        if (it[f].key != key || where(f) != c)
            pbt_fail(P, "find", "attempt %d: find of key %d in container %d gives entry %d with key %d", att_cur, key, c, f, it[f].key);
        break;
    }
    case 8: case 9: {
        /* lower bound: first entry with the key, else the terminator; upper bound: first entry
         * with a larger key. For a missing key the documented range loop needs an empty range. */
        pbt_trace(P, "bounds(%d,%d) ", c, key);
        struct txmultiset_entry* end = txmultiset_end_tx(l), *lo = txmultiset_lower_bound_tx(l, (void*)&keybuf),
                               * up = txmultiset_upper_bound_tx(l, (void*)&keybuf);
        if (cnt > 1) dups = 1;
        if (!cnt) {
            bool okl = lo == end, oku = up == end || (larger >= 0 && up != end && it[idx(up, "upper_bound")].key == it[view.s[c][larger]].key);
            if (!okl || !oku) pbt_fail(P, "bounds", "attempt %d: wrong bounds of missing key %d in container %d", att_cur, key, c);
            break;
        }
        if (lo == end || it[idx(lo, "lower_bound")].key != key)
            pbt_fail(P, "bounds", "attempt %d container %d: lower bound of key %d is %s", att_cur, c, key, lo == end ? "the end" : "an entry with another key");
        if (larger < 0 ? up != end : up == end || it[idx(up, "upper_bound")].key != it[view.s[c][larger]].key)
            pbt_fail(P, "bounds", "attempt %d container %d: wrong upper bound of key %d", att_cur, c, key);
        int d = 0;
        for (struct txmultiset_entry* x = lo; x != up && d <= NE; x = txmultiset_entry_next_tx(x)) {
            if (x == end || it[idx(x, "range")].key != key) { d = -1; break; }
            ++d;
        }
        eq("length of the range of a key", c, d, cnt);
        break;
    }
    case 10: if (cnt > 1) dups = 1; eq("count", c, txmultiset_count_tx(l, (void*)&keybuf), cnt); break;
    case 11: walk(c); break;
    }
}

static void op_queue(struct aop* o, int c)
{
    struct txqueue* l = txqueue_of_state_tx(&st[c].q);
    int n = view.n[c], e = o->a % NE;
    switch (o->k % 12) {
    case 0: case 1: case 2: case 3:
        for (int i = 0; i < NE && where(e) >= 0; ++i) e = (e + 1) % NE;
        if (where(e) >= 0) break;
        pbt_trace(P, "push(%d,%d) ", c, e);
        txqueue_push_tx(l, &it[e].e.q);
        m_insert(c, n, e);
        break;
    case 4: case 5: case 6: if (n) { pbt_trace(P, "pop(%d) ", c); txqueue_pop_tx(l); m_erase(c, 0); } break;
    case 7: if (n) {            /* move between the containers */
        int f = idx(txqueue_front_tx(l), "front");
        eq("front", c, f, view.s[c][0]);
        pbt_trace(P, "move(%d->%d) ", c, 1 - c);
        txqueue_pop_tx(l); m_erase(c, 0);
        txqueue_push_tx(txqueue_of_state_tx(&st[1 - c].q), &it[f].e.q);
        m_insert(1 - c, view.n[1 - c], f);
        break;
    }
    case 8: eq("size", c, txqueue_size_tx(l), n); break;
    case 9: eq("empty", c, txqueue_empty_tx(l), !n); break;
    case 10: if (n) { pbt_trace(P, "front(%d) ", c); eq("front", c, idx(txqueue_front_tx(l), "front"), view.s[c][0]); } break;
    case 11: if (n) { pbt_trace(P, "back(%d) ", c); eq("back", c, idx(txqueue_back_tx(l), "back"), view.s[c][n - 1]); } break;
    }
}

static void op_stack(struct aop* o, int c)
{
    struct txstack* l = txstack_of_state_tx(&st[c].s);
    int n = view.n[c], e = o->a % NE;
    switch (o->k % 12) {
    case 0: case 1: case 2: case 3:
        for (int i = 0; i < NE && where(e) >= 0; ++i) e = (e + 1) % NE;
        if (where(e) >= 0) break;
        pbt_trace(P, "push(%d,%d) ", c, e);
        txstack_push_tx(l, &it[e].e.s);
        m_insert(c, 0, e);
        break;
    case 4: case 5: case 6: if (n) { pbt_trace(P, "pop(%d) ", c); txstack_pop_tx(l); m_erase(c, 0); } break;
    case 7: if (n) {
        int f = idx(txstack_top_tx(l), "top");
        eq("top", c, f, view.s[c][0]);
        pbt_trace(P, "move(%d->%d) ", c, 1 - c);
        txstack_pop_tx(l); m_erase(c, 0);
        txstack_push_tx(txstack_of_state_tx(&st[1 - c].s), &it[f].e.s);
        m_insert(1 - c, 0, f);
        break;
    }
    case 8: eq("size", c, txstack_size_tx(l), n); break;
    case 9: eq("empty", c, txstack_empty_tx(l), !n); break;
    case 10: case 11: if (n) { pbt_trace(P, "top(%d) ", c); eq("top", c, idx(txstack_top_tx(l), "top"), view.s[c][0]); } break;
    }
}

static void att_start(void) { view = com; changed = 0; pbt_trace(P, " attempt: "); }

static void att_op(struct aop* o)
{
    int c = o->c % NC;
    switch (kind) {
    case LIST: op_list(o, c); break;
    case MSET: op_mset(o, c); break;
    case QUEUE: op_queue(o, c); break;
    case STACK: op_stack(o, c); break;
    }
}

static void att_finish_body(void)
{
    for (int c = 0; c < NC; ++c) {
        walk(c);
        struct aop o = { 8, c, 0, 0 };
        if (kind == MSET) o.k = 6;
        att_op(&o);
    }
    pbt_trace(P, "=> %s\n", att_endname[att[att_cur].end]);
}

/* a read-only transaction (lists, sets) or one that drains and rolls back (queues, stacks) */
__attribute__((noinline)) static void compare(const char* when)
{
    static int got[NC][NE + 2], n[NC];
    static volatile int bad;
    bad = 0;
    picotm_begin
        for (int c = 0; c < NC; ++c) {
            n[c] = 0;
            if (kind == LIST || kind == MSET) walk(c);
            else if (kind == QUEUE) {
                struct txqueue* l = txqueue_of_state_tx(&st[c].q);
                while (!txqueue_empty_tx(l) && n[c] <= NE) { got[c][n[c]++] = idx(txqueue_front_tx(l), "front"); txqueue_pop_tx(l); }
            } else {
                struct txstack* l = txstack_of_state_tx(&st[c].s);
                while (!txstack_empty_tx(l) && n[c] <= NE) { got[c][n[c]++] = idx(txstack_top_tx(l), "top"); txstack_pop_tx(l); }
            }
        }
        if (kind == QUEUE || kind == STACK) picotm_recover_from_errno(4712);
    picotm_commit
        if (picotm_error_status() != PICOTM_ERRNO || picotm_error_as_errno() != 4712) bad = 1;
    picotm_end
    if (bad) pbt_fail(P, "observer", "observing transaction failed");
    if (kind == QUEUE || kind == STACK) for (int c = 0; c < NC; ++c) same(when, c, got[c], n[c]);
}

static void att_committed(void)
{
    if (changed) changed_c = 1;
    com = view;
    compare("contents after commit");
}

static void att_rolledback(void)
{
    if (changed) changed_r = 1;
    view = com;
    if (att_recovered) compare("contents after roll-back");
    else {      /* inside the restarted transaction */
        if (kind == LIST || kind == MSET) for (int c = 0; c < NC; ++c) walk(c);
    }
}

static void gen(struct pbt* p, struct aop* o)
{
    o->k = pbt_draw(p, 12);
    o->c = pbt_chance(p, 1, 3);
    o->a = pbt_draw(p, NE);
    o->b = pbt_draw(p, 16);
}

static int ordr[NC][NE + 2], nordr[NC];
static void collect(void* e, void* d) { int c = (intptr_t)d; if (nordr[c] <= NE) ordr[c][nordr[c]++] = idx(e, "clean-up"); }

void prop_case(struct pbt* p)
{
    P = p;
    kind = !strcmp(pbt_mode, "list") ? LIST : !strcmp(pbt_mode, "multiset") ? MSET : !strcmp(pbt_mode, "queue") ? QUEUE : STACK;
    memset(&com, 0, sizeof(com));
    memset(it, 0xa5, sizeof(it));
    memset(st, 0xa5, sizeof(st));
    changed_c = changed_r = dups = 0;
    keyrange = 1 + pbt_draw(p, 12);
    for (int i = 0; i < NE; ++i) {
        it[i].id = i;
        it[i].key = kind == MSET ? pbt_draw(p, keyrange) : i;
        switch (kind) {
        case LIST: (i % 2 ? txlist_entry_init_tm : txlist_entry_init)(&it[i].e.l); break;
        case MSET: (i % 2 ? txmultiset_entry_init_tm : txmultiset_entry_init)(&it[i].e.m); break;
        case QUEUE: (i % 2 ? txqueue_entry_init_tm : txqueue_entry_init)(&it[i].e.q); break;
        case STACK: (i % 2 ? txstack_entry_init_tm : txstack_entry_init)(&it[i].e.s); break;
        }
    }
    for (int c = 0; c < NC; ++c) switch (kind) {
        case LIST: txlist_state_init(&st[c].l); break;
        case MSET: txmultiset_state_init(&st[c].m, keyof, cmpkey); break;
        case QUEUE: txqueue_state_init(&st[c].q); break;
        case STACK: txstack_state_init(&st[c].s); break;
    }
    int ntx = 1 + pbt_draw(p, 6);
    for (int t = 0; t < ntx; ++t) {
        att_gen(p, gen, NULL);
        pbt_trace(p, "tx%d:\n", t);
        att_run();
    }
    view = com;
    for (int c = 0; c < NC; ++c) {
        nordr[c] = 0;
        void* d = (void*)(intptr_t)c;
        switch (kind) {
        case LIST: txlist_state_clear_and_uninit_entries(&st[c].l, (void (*)(struct txlist_entry*, void*))collect, d); txlist_state_uninit(&st[c].l); break;
        case MSET: txmultiset_state_clear_and_uninit_entries(&st[c].m, (void (*)(struct txmultiset_entry*, void*))collect, d); txmultiset_state_uninit(&st[c].m); break;
        case QUEUE: txqueue_state_clear_and_uninit_entries(&st[c].q, (void (*)(struct txqueue_entry*, void*))collect, d); txqueue_state_uninit(&st[c].q); break;
        case STACK: txstack_state_clear_and_uninit_entries(&st[c].s, (void (*)(struct txstack_entry*, void*))collect, d); txstack_state_uninit(&st[c].s); break;
        }
        unsigned seen = 0, want = 0;
        for (int i = 0; i < nordr[c]; ++i) seen |= 1u << ordr[c][i];
        for (int i = 0; i < com.n[c]; ++i) want |= 1u << com.s[c][i];
        if (seen != want || nordr[c] != com.n[c]) differ("clean-up", c, ordr[c], nordr[c] > NE ? NE : nordr[c]);
    }
    for (int i = 0; i < NE; ++i) switch (kind) {    /* asserts that nothing is enqueued */
        case LIST: (i % 3 ? txlist_entry_uninit : txlist_entry_uninit_tm)(&it[i].e.l); break;
        case MSET: (i % 3 ? txmultiset_entry_uninit : txmultiset_entry_uninit_tm)(&it[i].e.m); break;
        case QUEUE: (i % 3 ? txqueue_entry_uninit : txqueue_entry_uninit_tm)(&it[i].e.q); break;
        case STACK: (i % 3 ? txstack_entry_uninit : txstack_entry_uninit_tm)(&it[i].e.s); break;
    }
    if (kind == MSET ? dups && changed_c : changed_c && changed_r) pbt_nontrivial(p);
}
