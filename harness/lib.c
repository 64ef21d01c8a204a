/* L01 (treemap), L02 (ref), L03 (seq): picotm's library data structures against models. */
#include "mt.h"
#include <errno.h>
#include <limits.h>
#include <picotm/picotm.h>
#include <picotm/picotm-error.h>
#include <picotm/picotm-lib-array.h>
#include <picotm/picotm-lib-global-state.h>
#include <picotm/picotm-lib-ptr.h>
#include <picotm/picotm-lib-ref.h>
#include <picotm/picotm-lib-shared-ref-obj.h>
#include <picotm/picotm-lib-shared-state.h>
#include <picotm/picotm-lib-shared-treemap.h>
#include <picotm/picotm-lib-slist.h>
#include <picotm/picotm-lib-state.h>
#include <picotm/picotm-lib-tab.h>
#include <picotm/picotm-lib-thread-state.h>
#include <picotm/picotm-lib-treemap.h>
#include "table.h"

int prop_batch = 200;
int prop_timeout_ms = 20000;
int prop_flaky_ok = 1;
const char prop_rule[] =
    "treemap: 1-80 look-ups (with and without creation, with failing creations and failing allocations) of keys "
    "from small, dense, sparse, high-bit and full-width distributions in plain (level width 1-12) and shared "
    "(key width 1-64) tree maps, for-each walks (also stopped by errors) and clean-up, against an association list; "
    "also 2-8 threads looking up the same keys concurrently. ref: sequences of up/down with conditions, failing "
    "conditions and failing set-ups on shared reference objects and the state templates, and 2-8 threads racing. "
    "seq: operation sequences on intrusive lists against an array, and table resize, walk, reverse walk, unique "
    "and address helpers on generated tables. Non-trivial: at least two different keys of which one is looked up "
    "again / an object that is torn down and set up again, or a race / at least three elements and a removal.";

void* __real_malloc(size_t n);
void* __wrap_malloc(size_t n);
static __thread volatile int fail_malloc;       /* the n-th allocation from now fails */
void* __wrap_malloc(size_t n)
{
    if (fail_malloc && !--fail_malloc) { errno = ENOMEM; return NULL; }
    return __real_malloc(n);
}

static struct pbt* P;
static bool is(const char* m) { return !strcmp(pbt_mode, m); }

/* ---- treemap ---- */
enum { MAXK = 80 };
struct val { unsigned long long key; int made, gone, visited; void* map; };
static struct val vals[4096];
static volatile int nvals;
static struct { unsigned long long key; struct val* v; } assoc[MAXK];
static int nassoc;
static volatile int fail_create;
static unsigned long long expect_key;
static void* expect_map;

static struct val* new_val(unsigned long long key, void* map)
{
    int i = __atomic_fetch_add(&nvals, 1, __ATOMIC_SEQ_CST);
    if (i >= 4096) pbt_fail(P, "created", "a value is created again and again");
    vals[i] = (struct val){ key, 1, 0, 0, map };
    return &vals[i];
}

static uintptr_t tm_create(unsigned long long key, struct picotm_treemap* m, struct picotm_error* e)
{
    if (key != expect_key || m != expect_map) pbt_fail(P, "create-args", "value created for key %llx instead of %llx", key, expect_key);
    if (fail_create) { picotm_error_set_errno(e, 4711); return 0; }
    return (uintptr_t)new_val(key, m);
}
static void tm_destroy(uintptr_t v, struct picotm_treemap* m)
{
    struct val* x = (void*)v;
    if (x < vals || x >= vals + nvals || x->map != m) pbt_fail(P, "destroy-args", "clean-up got a value that was never created");
    if (__atomic_add_fetch(&x->gone, 1, __ATOMIC_SEQ_CST) != 1) pbt_fail(P, "twice", "value of key %llx cleaned up twice", x->key);
}
static int stop_after;
static unsigned long long walked[4096];
static int nwalked;
static void tm_walk(uintptr_t v, unsigned long long key, struct picotm_treemap* m, void* data, struct picotm_error* e)
{
    struct val* x = (void*)v;
    if (x < vals || x >= vals + nvals) pbt_fail(P, "walk", "walk visits a value that was never created");
    if (x->key != key || m != x->map || data != &nwalked) pbt_fail(P, "walk", "walk reports key %llx for the value of key %llx", key, x->key);
    if (++x->visited > 1) pbt_fail(P, "walk", "walk visits key %llx twice", key);
    nwalked++;
    if (stop_after && nwalked == stop_after) picotm_error_set_errno(e, 99);
}

static uintptr_t st_create(unsigned long long key, struct picotm_shared_treemap* m, struct picotm_error* e) { return tm_create(key, (void*)m, e); }
static void st_destroy(uintptr_t v, struct picotm_shared_treemap* m) { tm_destroy(v, (void*)m); }

static unsigned long long gen_key(struct pbt* p, unsigned nbits)
{
    unsigned long long mask = nbits >= 64 ? ~0ull : (1ull << nbits) - 1, k;
    switch (PBT_W(p, 3, 3, 2, 2, 2, 1)) {
    case 0: k = pbt_draw(p, 8); break;
    case 1: k = pbt_draw(p, 5000); break;
    case 2: k = 1ull << pbt_draw(p, nbits); break;
    case 3: k = (1ull << pbt_draw(p, nbits)) - 1; break;
    case 4: k = pbt_draw(p, 0); break;
    default: k = mask - pbt_draw(p, 4); break;
    }
    return k & mask;
}

static void do_assoc(unsigned long long k, bool create, bool failing, uintptr_t r, struct picotm_error* e, int oldn)
{
    struct val* v = NULL;
    for (int i = 0; i < nassoc; ++i) if (assoc[i].key == k) v = assoc[i].v;
    if (v) {
        if (picotm_error_is_set(e)) pbt_fail(P, "lookup", "look-up of the existing key %llx fails", k);
        if ((struct val*)r != v) pbt_fail(P, "lookup", "look-up of key %llx returns %s", k, r ? "another value" : "nothing");
        if (nvals != oldn) pbt_fail(P, "created", "value of key %llx created again", k);
    } else if (!create) {
        if (picotm_error_is_set(e) && !failing) pbt_fail(P, "lookup", "look-up of the missing key %llx fails", k);
        if (r) pbt_fail(P, "lookup", "look-up of the missing key %llx returns a value", k);
        if (nvals != oldn) pbt_fail(P, "created", "value created without being asked to");
    } else if (picotm_error_is_set(e)) {
        if (!failing) pbt_fail(P, "create", "creation for key %llx failed", k);
        if (r) pbt_fail(P, "create", "failed creation returned a value");
        if (nvals != oldn) pbt_fail(P, "created", "value lost in a failed look-up");
        pbt_label(P, "failed-creation");
    } else {
        if (nvals != oldn + 1 || (struct val*)r != &vals[oldn]) pbt_fail(P, "create", "creation for key %llx returned something else", k);
        assoc[nassoc].key = k;
        assoc[nassoc++].v = (void*)r;
    }
}

static struct picotm_shared_treemap smap;
static unsigned long long skeys[64];
static volatile uintptr_t sval[8][64];
static int nskeys, nsthr;
static volatile int sgo;

static uintptr_t sr_create(unsigned long long key, struct picotm_shared_treemap* m, struct picotm_error* e)
{
    if (key & 1) sched_yield();
    return (uintptr_t)new_val(key, m);
}

static void st_body(int t)
{
    __atomic_add_fetch(&sgo, 1, __ATOMIC_SEQ_CST);
    while (__atomic_load_n(&sgo, __ATOMIC_SEQ_CST) < nsthr) sched_yield();
    for (int i = 0; i < nskeys; ++i) {
        struct picotm_error e = PICOTM_ERROR_INITIALIZER;
        sval[t][i] = picotm_shared_treemap_find_value(&smap, skeys[i], sr_create, st_destroy, &e);
        if (picotm_error_is_set(&e) || !sval[t][i]) pbt_fail(P, "lookup", "concurrent look-up of key %llx fails", skeys[i]);
    }
}

static void case_treemap(struct pbt* p)
{
    nvals = nassoc = 0;
    int kind = FINE ? 2 : PBT_W(p, 4, 3, 1);
    unsigned lb = 1 + pbt_draw(p, pbt_chance(p, 1, 4) ? 12 : 8), kb = kind ? 1 + pbt_draw(p, 64) : 64;
    if (kind == 2) {
        nsthr = 2 + pbt_draw(p, 7);
        nskeys = 1 + pbt_draw(p, 40);
        pbt_trace(p, "%d threads, key bits %u, level bits %u, %d keys:", nsthr, kb, lb, nskeys);
        for (int i = 0; i < nskeys; ++i) { skeys[i] = gen_key(p, kb); pbt_trace(p, " %llx", skeys[i]); }
        picotm_shared_treemap_init(&smap, kb, lb);
        sgo = 0;
        mt_stress(nsthr, st_body);
        for (int i = 0; i < nskeys; ++i) {
            struct val* v = (void*)sval[0][i];
            if (v->key != skeys[i]) pbt_fail(p, "lookup", "key %llx got the value of key %llx", skeys[i], v->key);
            if (v->gone) pbt_fail(p, "lost", "value of key %llx destroyed while in use", skeys[i]);
            for (int t = 1; t < nsthr; ++t) if (sval[t][i] != sval[0][i]) pbt_fail(p, "not-unique", "threads got different values for key %llx", skeys[i]);
            struct picotm_error e = PICOTM_ERROR_INITIALIZER;
            if (picotm_shared_treemap_find_value(&smap, skeys[i], NULL, NULL, &e) != sval[0][i]) pbt_fail(p, "moved", "value of key %llx changed", skeys[i]);
        }
        picotm_shared_treemap_uninit(&smap, st_destroy);
        pbt_nontrivial(p);
        pbt_label(p, "concurrent");
    } else {
        int n = 1 + pbt_len(p, MAXK - 1);
        struct picotm_treemap m;
        bool again = false;
        pbt_trace(p, "%s, key bits %u, level bits %u:", kind ? "shared" : "plain", kb, lb);
        expect_map = kind ? (void*)&smap : (void*)&m;
        if (kind) picotm_shared_treemap_init(&smap, kb, lb); else picotm_treemap_init(&m, lb);
        for (int i = 0; i < n; ++i) {
            unsigned long long k;
            if (nassoc && pbt_chance(p, 1, 3)) { k = assoc[pbt_draw(p, nassoc)].key; again = true; }
            else k = gen_key(p, kb);
            bool create = !pbt_chance(p, 1, 4);
            fail_create = pbt_chance(p, 1, 8);
            int fm = pbt_chance(p, 1, 8) ? 1 + pbt_draw(p, 4) : 0;
            pbt_trace(p, " %s%llx%s%s", create ? "" : "?", k, fail_create ? "(create fails)" : "", fm ? "(no memory)" : "");
            expect_key = k;
            struct picotm_error e = PICOTM_ERROR_INITIALIZER;
            int old = nvals;
            fail_malloc = fm;
            uintptr_t r = kind ? picotm_shared_treemap_find_value(&smap, k, create ? st_create : NULL, create ? st_destroy : NULL, &e)
                               : picotm_treemap_find_value(&m, k, create ? tm_create : NULL, &e);
            fail_malloc = 0;
            /* growing a tree may run out of memory even for keys that exist only if it is not needed */
            do_assoc(k, create, fail_create || fm, r, &e, old);
            if (!kind && pbt_chance(p, 1, 12)) {
                stop_after = pbt_chance(p, 1, 2) ? 1 + pbt_draw(p, nassoc + 1) : 0;
                nwalked = 0;
                for (int j = 0; j < nvals; ++j) vals[j].visited = 0;
                struct picotm_error e2 = PICOTM_ERROR_INITIALIZER;
                picotm_treemap_for_each_value(&m, &nwalked, tm_walk, &e2);
                pbt_trace(p, " walk(%d)", stop_after);
                int want = stop_after && stop_after <= nassoc ? stop_after : nassoc;
                if (nwalked != want) pbt_fail(p, "walk", "walk visited %d of %d values", nwalked, want);
                if (picotm_error_is_set(&e2) != (stop_after && stop_after <= nassoc)) pbt_fail(p, "walk", "walk's error is lost");
            }
        }
        if (again && nassoc > 1) pbt_nontrivial(p);
        if (kind) picotm_shared_treemap_uninit(&smap, st_destroy); else picotm_treemap_uninit(&m, tm_destroy);
    }
    for (int i = 0; i < nvals; ++i) if (vals[i].gone != 1) pbt_fail(p, "leak", "value of key %llx cleaned up %d times", vals[i].key, vals[i].gone);
}

/* ---- shared references ---- */
static struct picotm_shared_ref16_obj robj;
static volatile int alive, setups, teardowns, r_count, cond_calls;
static int c_mode;      /* outcome of the condition: 0 false, 1 true, 2 error, 3 in use */
static int f_fail;
static struct { int magic; } rdata;

static bool r_cond(struct picotm_shared_ref16_obj* o, void* data, struct picotm_error* e)
{
    if (o != &robj || data != &rdata) pbt_fail(P, "cond-args", "condition called with other arguments");
    cond_calls++;
    if (c_mode == 2) { picotm_error_set_errno(e, 77); return false; }
    if (c_mode == 3) return picotm_shared_ref16_obj_count(o) > 0;
    return c_mode;
}
static void r_first(struct picotm_shared_ref16_obj* o, void* data, struct picotm_error* e)
{
    if (o != &robj || data != &rdata) pbt_fail(P, "init-args", "set-up called with other arguments");
    if (alive) pbt_fail(P, "setup-twice", "object set up while it is in use");
    setups++;
    if (f_fail) { picotm_error_set_errno(e, 78); return; }
    alive = 1;
}
static void r_final(struct picotm_shared_ref16_obj* o, void* data, struct picotm_error* e)
{
    if (o != &robj || data != &rdata) pbt_fail(P, "final-args", "clean-up called with other arguments");
    if (!alive) pbt_fail(P, "teardown-twice", "object cleaned up while it is not in use");
    teardowns++;
    alive = 0;
}

/* state templates */
struct tstate { int magic; };
static volatile int ts_live, ts_fail, gs_live, gs_fail;
static void ts_init(struct tstate* s, struct picotm_error* e) { if (ts_live) pbt_fail(P, "setup-twice", "state set up twice"); if (ts_fail) { picotm_error_set_errno(e, 5); return; } s->magic = 1234; ts_live = 1; }
static void ts_uninit(struct tstate* s) { if (!ts_live || s->magic != 1234) pbt_fail(P, "teardown-twice", "state cleaned up twice"); s->magic = 0; ts_live = 0; }
static void gs_init(struct tstate* s, struct picotm_error* e) { if (gs_live) pbt_fail(P, "setup-twice", "shared state set up twice"); if (gs_fail) { picotm_error_set_errno(e, 5); return; } s->magic = 4321; gs_live = 1; }
static void gs_uninit(struct tstate* s) { if (!gs_live || s->magic != 4321) pbt_fail(P, "teardown-twice", "shared state cleaned up twice"); s->magic = 0; gs_live = 0; }
PICOTM_STATE(tst, struct tstate);
PICOTM_STATE_STATIC_IMPL(tst, struct tstate, ts_init, ts_uninit)
PICOTM_THREAD_STATE_STATIC_IMPL(tst)
PICOTM_SHARED_STATE(gst, struct tstate);
PICOTM_SHARED_STATE_STATIC_IMPL(gst, struct tstate, gs_init, gs_uninit)
PICOTM_GLOBAL_STATE_STATIC_IMPL(gst)

struct rop { uint8_t k, c, f; };
static struct rop rprog[8][40];
static int rn[8];
static volatile int holders;

static bool q_cond(struct picotm_shared_ref16_obj* o, void* data, struct picotm_error* e)
{
    /* synchronised with set-up and clean-up */
    bool used = picotm_shared_ref16_obj_count(o) > 0;
    if (used != !!alive) pbt_fail(P, "unsynchronised", "condition sees %d references, but the object is %s", picotm_shared_ref16_obj_count(o), alive ? "set up" : "not set up");
    *(bool*)data = used;
    return used;
}
static void q_first(struct picotm_shared_ref16_obj* o, void* data, struct picotm_error* e)
{
    if (__atomic_exchange_n(&alive, 1, __ATOMIC_SEQ_CST)) pbt_fail(P, "setup-twice", "object set up while it is in use");
    if (holders) pbt_fail(P, "setup-twice", "object set up while others hold references");
    *(bool*)data = true;
}
static void q_final(struct picotm_shared_ref16_obj* o, void* data, struct picotm_error* e)
{
    if (!__atomic_exchange_n(&alive, 0, __ATOMIC_SEQ_CST)) pbt_fail(P, "teardown-twice", "object cleaned up while it is not in use");
    if (holders) pbt_fail(P, "early", "object cleaned up while others hold references");
}

static void r_body(int t)
{
    int held = 0;
    for (int r = 0; r < (FINE ? 2 : 30); ++r)
        for (int i = 0; i < rn[t]; ++i) {
            struct picotm_error e = PICOTM_ERROR_INITIALIZER;
            struct rop* o = &rprog[t][i];
            bool got = false;
            if (o->k == 0) { picotm_shared_ref16_obj_up(&robj, &got, NULL, q_first, &e); got = true; }
            else if (o->k == 1) picotm_shared_ref16_obj_up(&robj, &got, q_cond, NULL, &e);
            else if (o->k == 2 && held) { picotm_shared_ref16_obj_up(&robj, NULL, NULL, NULL, &e); got = true; }
            else if (o->k == 3 && held) {
                __atomic_sub_fetch(&holders, 1, __ATOMIC_SEQ_CST);
                picotm_shared_ref16_obj_down(&robj, NULL, NULL, q_final);
                --held;
            }
            if (got) {
                __atomic_add_fetch(&holders, 1, __ATOMIC_SEQ_CST);
                ++held;
            }
            if (held && !alive) pbt_fail(P, "not-usable", "thread %d holds a reference, but the object is not set up", t);
        }
    for (; held; --held) {
        if (!alive) pbt_fail(P, "not-usable", "thread %d holds a reference, but the object is not set up", t);
        __atomic_sub_fetch(&holders, 1, __ATOMIC_SEQ_CST);
        picotm_shared_ref16_obj_down(&robj, NULL, NULL, q_final);
    }
}

static volatile int gholders;
static void g_body(int t)
{
    for (int r = 0; r < (FINE ? 3 : 60); ++r) {
        struct picotm_error e = PICOTM_ERROR_INITIALIZER;
        struct tstate* s = PICOTM_GLOBAL_STATE_REF(gst, &e);
        if (!s || s->magic != 4321 || !gs_live) pbt_fail(P, "not-usable", "shared state is not set up while referenced");
        if (t & 1) sched_yield();
        if (s->magic != 4321) pbt_fail(P, "early", "shared state cleaned up while referenced");
        PICOTM_GLOBAL_STATE_UNREF(gst);
    }
}

static void case_ref(struct pbt* p)
{
    struct picotm_error e0 = PICOTM_ERROR_INITIALIZER;
    int kind = FINE ? 1 + 2 * PBT_W(p, 3, 1) : PBT_W(p, 5, 2, 3, 1);
    alive = setups = teardowns = holders = 0;
    if (kind == 1) {
        nsthr = 2 + pbt_draw(p, FINE ? 3 : 7);
        pbt_trace(p, "race:");
        for (int t = 0; t < nsthr; ++t) {
            rn[t] = 1 + pbt_len(p, FINE ? 6 : 38);
            pbt_trace(p, " T%d", t);
            for (int i = 0; i < rn[t]; ++i) { rprog[t][i].k = PBT_W(p, 3, 3, 2, 5); pbt_trace(p, " %d", rprog[t][i].k); }
        }
        picotm_shared_ref16_obj_init(&robj, &e0);
        mt_stress(nsthr, r_body);
        if (alive || picotm_shared_ref16_obj_count(&robj)) pbt_fail(p, "leak", "object still in use after the last reference went");
        picotm_shared_ref16_obj_uninit(&robj);
        pbt_nontrivial(p);
        pbt_label(p, "race");
        return;
    }
    if (kind == 3) {
        nsthr = 2 + pbt_draw(p, 7);
        pbt_trace(p, "state race with %d threads", nsthr);
        gs_live = gs_fail = 0;
        mt_stress(nsthr, g_body);
        if (gs_live) pbt_fail(p, "leak", "shared state still set up after the last reference went");
        pbt_nontrivial(p);
        return;
    }
    int n = 1 + pbt_len(p, 60), cnt = 0, cycles = 0, grefs = 0;
    if (kind == 0) picotm_shared_ref16_obj_init(&robj, &e0);
    ts_live = ts_fail = gs_live = gs_fail = 0;
    for (int i = 0; i < n; ++i) {
        struct picotm_error e = PICOTM_ERROR_INITIALIZER;
        int k = pbt_draw(p, 4);
        if (kind == 2) {
            switch (k) {
            case 0: {
                bool init = pbt_chance(p, 2, 3);
                ts_fail = pbt_chance(p, 1, 4);
                bool was = ts_live;
                pbt_trace(p, " acquire(%d%s)", init, ts_fail ? ", fails" : "");
                struct tstate* s = PICOTM_THREAD_STATE_ACQUIRE(tst, init, &e);
                bool want = was || (init && !ts_fail);
                if (!!s != want || !!ts_live != want) pbt_fail(p, "state", "thread state is %s, expected %d", s ? "set up" : "missing", want);
                if (s && s->magic != 1234) pbt_fail(p, "not-usable", "thread state is not set up");
                if (picotm_error_is_set(&e) != (!was && init && ts_fail)) pbt_fail(p, "error", "error of a set-up lost or invented");
                break; }
            case 1: if (ts_live) ++cycles; PICOTM_THREAD_STATE_RELEASE(tst); pbt_trace(p, " release"); if (ts_live) pbt_fail(p, "leak", "thread state survives its release"); break;
            case 2: {
                gs_fail = pbt_chance(p, 1, 4);
                pbt_trace(p, " ref%s", gs_fail ? "(fails)" : "");
                struct tstate* s = PICOTM_GLOBAL_STATE_REF(gst, &e);
                bool want = grefs || !gs_fail;
                if (!!s != want || picotm_error_is_set(&e) != !want) pbt_fail(p, "state", "reference on shared state %s", s ? "succeeds" : "fails");
                if (want) ++grefs;
                if (s && s->magic != 4321) pbt_fail(p, "not-usable", "shared state is not set up");
                if (s && s != PICOTM_GLOBAL_STATE_GET(gst)) pbt_fail(p, "moved", "shared state moved");
                break; }
            default: if (grefs) { PICOTM_GLOBAL_STATE_UNREF(gst); pbt_trace(p, " unref"); if (!--grefs) ++cycles; } break;
            }
            if (!!gs_live != !!grefs) pbt_fail(p, grefs ? "early" : "leak", "shared state with %d references is %s", grefs, gs_live ? "set up" : "not set up");
            continue;
        }
        bool use_cond = pbt_chance(p, 1, 2), use_f = pbt_chance(p, 3, 4);
        c_mode = PBT_W(p, 2, 4, k < 2 ? 1 : 0, 3);
        f_fail = pbt_chance(p, 1, 5);
        int s0 = setups, t0 = teardowns, cc0 = cond_calls;
        bool c_ok = !use_cond || c_mode == 1 || (c_mode == 3 && cnt > 0), c_err = use_cond && c_mode == 2;
        if (k < 2) {
            if (!cnt && !use_f && !alive) use_f = true;         /* the first reference needs a set-up here */
            if (cnt == 0 && alive) pbt_fail(p, "leak", "object still in use");
            pbt_trace(p, " up(%s%s%s)", use_cond ? "cond " : "", use_cond ? (const char*[]){ "false", "true", "error", "in-use" }[c_mode] : "", use_f ? f_fail ? " failing set-up" : " set-up" : "");
            picotm_shared_ref16_obj_up(&robj, &rdata, use_cond ? r_cond : NULL, use_f ? r_first : NULL, &e);
            bool first = cnt == 0 && c_ok, ok = c_ok && !(first && use_f && f_fail);
            if (picotm_error_is_set(&e) != (c_err || (first && use_f && f_fail))) pbt_fail(p, "error", "error of condition or set-up lost or invented");
            if (use_cond && cond_calls != cc0 + 1) pbt_fail(p, "cond", "condition called %d times", cond_calls - cc0);
            if (setups - s0 != (first && use_f)) pbt_fail(p, "setup", "set-up called %d times for reference %d", setups - s0, cnt + 1);
            if (ok) ++cnt;
        } else if (cnt) {
            pbt_trace(p, " down(%s%s)", use_cond ? "cond " : "", use_cond ? (const char*[]){ "false", "true", "error", "in-use" }[c_mode] : "");
            picotm_shared_ref16_obj_down(&robj, &rdata, use_cond ? r_cond : NULL, r_final);
            if (c_ok) --cnt;
            if (teardowns - t0 != (c_ok && !cnt)) pbt_fail(p, cnt ? "early" : "leak", "clean-up called %d times with %d references left", teardowns - t0, cnt);
            if (c_ok && !cnt) ++cycles;
        }
        if (picotm_shared_ref16_obj_count(&robj) != cnt) pbt_fail(p, "count", "%d references instead of %d", picotm_shared_ref16_obj_count(&robj), cnt);
        if (!!alive != !!cnt) pbt_fail(p, cnt ? "not-usable" : "leak", "object with %d references is %s", cnt, alive ? "set up" : "not set up");
    }
    if (kind == 0) {
        c_mode = 1;
        while (cnt--) picotm_shared_ref16_obj_down(&robj, &rdata, NULL, r_final);
        if (alive) pbt_fail(p, "leak", "object in use after its last reference");
        picotm_shared_ref16_obj_uninit(&robj);
    } else {
        PICOTM_THREAD_STATE_RELEASE(tst);
        while (grefs--) PICOTM_GLOBAL_STATE_UNREF(gst);
        if (gs_live) pbt_fail(p, "leak", "shared state in use after its last reference");
    }
    if (cycles > 1) pbt_nontrivial(p);
}

/* ---- sequences ---- */
enum { MAXE = 40 };
struct elem { int pad; struct picotm_slist l; int key, id; };
static struct elem el[MAXE];
static int model[MAXE], mlen;
static int calls, visited[MAXE * 2];
static int wstep[MAXE * 2], wstop;

static struct elem* E(const struct picotm_slist* l) { return picotm_containerof(l, struct elem, l); }
static int by_key(struct picotm_slist* a, struct picotm_slist* b) { return (E(a)->key > E(b)->key) - (E(a)->key < E(b)->key); }
static bool t0(const struct picotm_slist* l) { visited[calls++] = E(l)->id; return E(l)->key == wstop; }
static bool t1(const struct picotm_slist* l, void* d) { visited[calls++] = E(l)->id; return E(l)->key == *(int*)d; }
static bool t2(const struct picotm_slist* l, void* d, void* d2) { visited[calls++] = E(l)->id; return E(l)->key == *(int*)d && d2 == &calls; }
static size_t w0(struct picotm_slist* l) { visited[calls] = E(l)->id; return wstep[calls++]; }
static size_t w1(struct picotm_slist* l, void* d) { if (d != &wstop) abort(); return w0(l); }
static size_t w2(struct picotm_slist* l, void* d, void* d2) { if (d != &wstop || d2 != &calls) abort(); return w0(l); }
static void c0(struct picotm_slist* l) { if (l->next) pbt_fail(P, "cleanup", "clean-up of an item that is still listed"); visited[calls++] = E(l)->id; }
static void c1(struct picotm_slist* l, void* d) { if (d != &wstop) abort(); c0(l); }
static void c2(struct picotm_slist* l, void* d, void* d2) { if (d != &wstop || d2 != &calls) abort(); c0(l); }

static void m_ins(int at, int id) { memmove(model + at + 1, model + at, (mlen - at) * sizeof(int)); model[at] = id; ++mlen; }
static void m_del(int at) { --mlen; memmove(model + at, model + at + 1, (mlen - at) * sizeof(int)); }

static void l_check(struct picotm_slist* h)
{
    struct picotm_slist* l = picotm_slist_begin(h);
    for (int i = 0; i < mlen; ++i, l = picotm_slist_next(l)) {
        if (l == picotm_slist_end(h) || E(l)->id != model[i]) pbt_fail(P, "order", "element %d of %d is %d instead of %d", i, mlen, l == h ? -1 : E(l)->id, model[i]);
        struct picotm_slist* pr = picotm_slist_prev(l);
        if (i ? pr == h || E(pr)->id != model[i - 1] : pr != h) pbt_fail(P, "prev", "wrong predecessor of element %d", i);
    }
    if (l != picotm_slist_end(h)) pbt_fail(P, "order", "list is longer than %d", mlen);
    if (picotm_slist_is_empty(h) != !mlen) pbt_fail(P, "empty", "emptiness of %d elements", mlen);
    struct picotm_slist* f = picotm_slist_front(h), * b = picotm_slist_back(h);
    if (mlen ? !f || E(f)->id != model[0] || !b || E(b)->id != model[mlen - 1] : f || b) pbt_fail(P, "ends", "wrong front or back");
    for (int i = 0; i < MAXE; ++i) {
        bool in = false;
        for (int k = 0; k < mlen; ++k) in |= model[k] == i;
        if (picotm_slist_is_enqueued(&el[i].l) != in) pbt_fail(P, "enqueued", "element %d is reported %s", i, in ? "free" : "listed");
    }
}

static void case_list(struct pbt* p)
{
    struct picotm_slist h;
    picotm_slist_init_head(&h);
    mlen = 0;
    bool removed = false, sorted = pbt_chance(p, 1, 4);
    for (int i = 0; i < MAXE; ++i) { el[i].key = pbt_draw(p, 8); el[i].id = i; picotm_slist_init_item(&el[i].l); }
    int n = 1 + pbt_len(p, 80), maxl = 0;
    for (int s = 0; s < n; ++s) {
        int freei = -1, st = pbt_draw(p, MAXE);
        for (int k = 0; k < MAXE && freei < 0; ++k) if (!el[(st + k) % MAXE].l.next) freei = (st + k) % MAXE;
        int at = mlen ? (int)pbt_draw(p, mlen) : 0, op = PBT_W(p, 3, 3, 2, 2, 2, 2, 2, 2, 1);
        if (sorted && op < 4) {
            if (freei < 0) continue;
            pbt_trace(p, " sorted(%d)", el[freei].key);
            picotm_slist_enqueue_sorted(&h, &el[freei].l, by_key);
            int k = 0;          /* where did it go? */
            struct picotm_slist* l = picotm_slist_begin(&h);
            for (; l != &h && l != &el[freei].l; l = l->next) ++k;
            if (k > mlen) pbt_fail(p, "order", "element lost");
            m_ins(k, freei);
            for (int i = 1; i < mlen; ++i) if (el[model[i - 1]].key < el[model[i]].key) pbt_fail(p, "sorted", "sorted list has %d before %d", el[model[i - 1]].key, el[model[i]].key);
            goto next;
        }
        if (freei < 0 && op < 4) continue;
        switch (op) {
        case 0: pbt_trace(p, " front(%d)", freei); picotm_slist_enqueue_front(&h, &el[freei].l); m_ins(0, freei); break;
        case 1: pbt_trace(p, " back(%d)", freei); picotm_slist_enqueue_back(&h, &el[freei].l); m_ins(mlen, freei); break;
        case 2: if (!mlen) continue; pbt_trace(p, " before(%d,%d)", model[at], freei); picotm_slist_enqueue_before(&el[model[at]].l, &el[freei].l); m_ins(at, freei); break;
        case 3: if (!mlen) continue; pbt_trace(p, " after(%d,%d)", model[at], freei); picotm_slist_enqueue_after(&el[model[at]].l, &el[freei].l); m_ins(at + 1, freei); break;
        case 4: if (!mlen) continue; pbt_trace(p, " dequeue(%d)", model[at]); picotm_slist_dequeue(&el[model[at]].l); m_del(at); removed = true; break;
        case 5: if (!mlen) continue; pbt_trace(p, " dequeue-front"); picotm_slist_dequeue_front(&h); m_del(0); removed = true; break;
        case 6: {
            wstop = pbt_draw(p, 10);
            int v = pbt_draw(p, 3), want = mlen;
            for (int i = mlen - 1; i >= 0; --i) if (el[model[i]].key == wstop) want = i;
            calls = 0;
            pbt_trace(p, " find(%d)", wstop);
            struct picotm_slist* l = v == 0 ? picotm_slist_find_0(&h, t0) : v == 1 ? picotm_slist_find_1(&h, t1, &wstop) : picotm_slist_find_2(&h, t2, &wstop, &calls);
            if (want == mlen ? l != &h : l != &el[model[want]].l) pbt_fail(p, "find", "search for %d found something else", wstop);
            break; }
        case 7: {
            int v = pbt_draw(p, 3), pos = 0, k = 0;
            for (int i = 0; i < MAXE * 2; ++i) wstep[i] = pbt_chance(p, 1, 8) ? 0 : pbt_chance(p, 1, 6) ? 2 + pbt_draw(p, 3) : 1;
            calls = 0;
            pbt_trace(p, " walk");
            struct picotm_slist* l = v == 0 ? picotm_slist_walk_0(&h, w0) : v == 1 ? picotm_slist_walk_1(&h, w1, &wstop) : picotm_slist_walk_2(&h, w2, &wstop, &calls);
            for (;;) {
                if (pos >= mlen) { if (l != &h) pbt_fail(p, "walk", "walk did not return the head"); break; }
                if (k >= calls || visited[k] != model[pos]) pbt_fail(p, "walk", "walk's step %d missed element %d", k, model[pos]);
                if (!wstep[k]) { if (l != &el[model[pos]].l) pbt_fail(p, "walk", "stopped walk returned something else"); ++k; break; }
                pos += wstep[k++];
            }
            if (k != calls) pbt_fail(p, "walk", "walk made %d calls instead of %d", calls, k);
            break; }
        default: {
            int v = pbt_draw(p, 3);
            calls = 0;
            pbt_trace(p, " cleanup");
            if (v == 0) picotm_slist_cleanup_0(&h, c0); else if (v == 1) picotm_slist_cleanup_1(&h, c1, &wstop); else picotm_slist_cleanup_2(&h, c2, &wstop, &calls);
            if (calls != mlen) pbt_fail(p, "cleanup", "%d of %d elements cleaned up", calls, mlen);
            for (int i = 0; i < mlen; ++i) if (visited[i] != model[i]) pbt_fail(p, "cleanup", "element %d cleaned up out of order", visited[i]);
            mlen = 0;
            break; }
        }
    next:
        if (mlen > maxl) maxl = mlen;
        l_check(&h);
    }
    if (maxl > 2 && removed) pbt_nontrivial(p);
}

static unsigned char* tb_base;
static size_t tb_siz, tb_n;
static int tb_err;
static size_t tw1(void* e, struct picotm_error* er)
{
    if (((unsigned char*)e - tb_base) % tb_siz) pbt_fail(P, "walk", "walk visits the inside of an element");
    visited[calls] = ((unsigned char*)e - tb_base) / tb_siz;
    if (tb_err >= 0 && calls == tb_err) { picotm_error_set_errno(er, 3); ++calls; return 0; }
    return wstep[calls++];
}
static size_t tw2(void* e, void* d, struct picotm_error* er) { if (d != &wstop) abort(); return tw1(e, er); }
static size_t tw3(void* e, void* d, void* d2, struct picotm_error* er) { if (d != &wstop || d2 != &calls) abort(); return tw1(e, er); }
static int tcmp(const void* a, const void* b) { if (((const unsigned char*)a - tb_base) / tb_siz >= tb_n || ((const unsigned char*)b - tb_base) / tb_siz >= tb_n) pbt_fail(P, "uniq", "comparison outside of the table"); return memcmp(a, b, tb_siz); }

static void case_tab(struct pbt* p)
{
    bool core = pbt_chance(p, 1, 2);            /* the core's own copy of the table functions */
    void* (*resize)(void*, size_t, size_t, size_t, struct picotm_error*) = core ? tabresize : picotm_tabresize;
    size_t siz = 1 + pbt_draw(p, 40), n = 0, cap = 0;
    unsigned char* base = NULL, * ref = calloc(700, siz);
    int steps = 1 + pbt_len(p, 12);
    size_t maxn = 0;
    bool shrunk = false;
    pbt_trace(p, "%s table of %zu-byte elements:", core ? "core" : "library", siz);
    for (int s = 0; s < steps; ++s) {
        struct picotm_error e = PICOTM_ERROR_INITIALIZER;
        size_t nn = pbt_chance(p, 1, 2) ? n + 1 + pbt_draw(p, 3) : pbt_draw(p, 600);
        if (!nn) nn = 1;
        if (nn > 690) nn = 690;
        pbt_trace(p, " resize(%zu)", nn);
        unsigned char* nb = resize(base, n, nn, siz, &e);
        if (picotm_error_is_set(&e) || !nb) pbt_fail(p, "resize", "resizing from %zu to %zu elements fails", n, nn);
        base = nb;
        size_t keep = n < nn ? n : nn;
        if (memcmp(base, ref, keep * siz)) pbt_fail(p, "resize", "elements lost when resizing from %zu to %zu", n, nn);
        for (size_t i = keep * siz; i < nn * siz; ++i) ref[i] = base[i] = i * 7 + s + 1;     /* the whole new table is usable */
        if (nn < n) shrunk = true;
        n = nn;
        if (n > maxn) maxn = n;
    }
    (core ? tabfree : picotm_tabfree)(base);
    free(ref);
    /* walks on a separate, exactly sized table */
    tb_siz = siz;
    tb_n = pbt_draw(p, 30);
    tb_base = malloc(tb_n * siz + !tb_n);
    unsigned dup = 1 + pbt_draw(p, 5);
    unsigned char* copy = malloc(tb_n * siz + 1);
    unsigned v = 0;
    for (size_t i = 0; i < tb_n; ++i) {
        if (!pbt_chance(p, dup, 6)) v += 1 + pbt_draw(p, 2);
        memset(tb_base + i * siz, 0, siz);
        tb_base[i * siz + (v & 1 ? siz - 1 : 0)] = v;
    }
    memcpy(copy, tb_base, tb_n * siz);
    int which = pbt_draw(p, 5), k = 0;
    long pos = which < 3 ? 0 : (long)tb_n - 1, want = 0;
    for (int i = 0; i < MAXE * 2; ++i) wstep[i] = pbt_chance(p, 1, 6) ? 2 : 1;
    tb_err = pbt_chance(p, 1, 4) ? (int)pbt_draw(p, 10) : -1;
    calls = 0;
    struct picotm_error e = PICOTM_ERROR_INITIALIZER;
    size_t r = which == 0 ? (core ? tabwalk_1 : picotm_tabwalk_1)(tb_base, tb_n, siz, tw1, &e)
             : which == 1 ? (core ? tabwalk_2 : picotm_tabwalk_2)(tb_base, tb_n, siz, tw2, &wstop, &e)
             : which == 2 ? (core ? tabwalk_3 : picotm_tabwalk_3)(tb_base, tb_n, siz, tw3, &wstop, &calls, &e)
             : which == 3 ? (core ? tabrwalk_1 : picotm_tabrwalk_1)(tb_base, tb_n, siz, tw1, &e)
             : (core ? tabrwalk_2 : picotm_tabrwalk_2)(tb_base, tb_n, siz, tw2, &wstop, &e);
    pbt_trace(p, "; walk %d over %zu elements, error at %d", which, tb_n, tb_err);
    bool err = false;
    while (pos >= 0 && pos < (long)tb_n) {
        if (k >= calls || visited[k] != pos) pbt_fail(p, "walk", "walk's call %d visits element %d instead of %ld", k, k < calls ? visited[k] : -1, pos);
        if (k == tb_err) { ++k; err = true; break; }
        pos += which < 3 ? wstep[k] : -wstep[k];
        want += wstep[k++];
    }
    if (k != calls) pbt_fail(p, "walk", "walk makes %d calls instead of %d", calls, k);
    if (picotm_error_is_set(&e) != err) pbt_fail(p, "walk", "walk's error lost");
    if (r != (size_t)want) pbt_fail(p, "walk", "walk returns %zu instead of %ld", r, want);
    size_t u = (core ? tabuniq : picotm_tabuniq)(tb_base, tb_n, siz, tcmp), m = 0;
    for (size_t i = 0; i < tb_n; ++i) {
        if (i && !memcmp(copy + i * siz, copy + (i - 1) * siz, siz)) continue;
        if (m < u && memcmp(tb_base + m * siz, copy + i * siz, siz)) pbt_fail(p, "uniq", "element %zu of the unique table differs", m);
        ++m;
    }
    if (u != m) pbt_fail(p, "uniq", "%zu unique elements instead of %zu", u, m);
    free(tb_base);
    free(copy);
    /* addresses */
    uintptr_t a = pbt_u64(p) >> pbt_draw(p, 16);
    size_t al = pbt_chance(p, 1, 2) ? (size_t)1 << pbt_draw(p, 12) : 1 + pbt_draw(p, 100);
    uintptr_t fl = picotm_address_floor(a, al);
    if (fl % al || fl > a || a - fl >= al || (uintptr_t)picotm_ptr_floor((void*)a, al) != fl) pbt_fail(p, "address", "floor(%lx, %zu)", (long)a, al);
    if (a < UINTPTR_MAX - al) {
        uintptr_t ce = picotm_address_ceil(a, al);
        if (ce % al || ce < a || ce - a >= al || (uintptr_t)picotm_ptr_ceil((void*)a, al) != ce) pbt_fail(p, "address", "ceil(%lx, %zu)", (long)a, al);
    }
    if (maxn > 2 && (shrunk || m < tb_n)) pbt_nontrivial(p);
}

void prop_case(struct pbt* p)
{
    P = p;
    fail_malloc = 0;
    if (is("treemap")) case_treemap(p);
    else if (is("ref")) case_ref(p);
    else if (pbt_chance(p, 1, 2)) case_list(p);
    else case_tab(p);
}
