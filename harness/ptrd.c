/* P01: data attached to pointers. Modes: seq (threads in generated order), race (concurrent threads). */
#include "mt.h"
#include <picotm/picotm.h>
#include <picotm/picotm-error.h>
#include <picotm/picotm-module.h>
#include <picotm/picotm-ptrdata.h>

const char prop_rule[] =
    "1-4 threads x 1-60 operations (set, get, clear, test-and-set with right and wrong expectation of shared data; set, get, "
    "clear of own data; release of the thread's state; transactions around the operations) over up to 12 pointers with "
    "equal prefixes, suffixes and byte values, in generated order. Oracle: one map per thread and one shared map. Race: "
    "concurrent counters and first-come claims by test-and-set. Non-trivial: data read back while other pointers had data.";
int prop_timeout_ms = 20000;

enum { MAXT = 4, MAXOP = 60, NK = 12 };
enum { SET, GET, CLEAR, SSET, SGET, SCLEAR, STAS, REL, NKIND };
static const char* const names[] = { "set", "get", "clear", "set shared", "get shared", "clear shared", "test and set shared", "release" };
struct op { int k, key, intx; uint64_t val; int expect; };
static struct { int n; struct op o[MAXOP]; } prog[MAXT];
static int nthreads, nkeys;
static uintptr_t key[NK];
static struct pbt* P;
static uint8_t sched[300];
static uintptr_t own[MAXT][NK], shared[NK];
static bool active[MAXT], claimed;
static bool defined[NK];        /* shared data gone or kept since all threads had released? */
static volatile int interesting;

/* blocks allocated by the code under test */
static volatile long blocks; static __thread bool counting;
void* __real_malloc(size_t); void __real_free(void*); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); int __real_posix_memalign(void**, size_t, size_t);
void* __wrap_malloc(size_t n) { void* q = __real_malloc(n); if (counting && q) __atomic_add_fetch(&blocks, 1, __ATOMIC_SEQ_CST); return q; }
void* __wrap_calloc(size_t n, size_t m) { void* q = __real_calloc(n, m); if (counting && q) __atomic_add_fetch(&blocks, 1, __ATOMIC_SEQ_CST); return q; }
void* __wrap_realloc(void* o, size_t n) { void* q = __real_realloc(o, n); if (counting && q && !o) __atomic_add_fetch(&blocks, 1, __ATOMIC_SEQ_CST); return q; }
int __wrap_posix_memalign(void** q, size_t a, size_t n) { int r = __real_posix_memalign(q, a, n); if (counting && !r) __atomic_add_fetch(&blocks, 1, __ATOMIC_SEQ_CST); return r; }
void __wrap_free(void* q) { if (counting && q) __atomic_sub_fetch(&blocks, 1, __ATOMIC_SEQ_CST); __real_free(q); }
#define trace(...) (counting = false, pbt_trace(__VA_ARGS__), counting = true)

static void ok(struct picotm_error* e, const char* what) { if (picotm_error_is_set(e)) pbt_fail(P, "error", "%s failed with status %d", what, e->status); }

static void one(int t, struct op* o)
{
    struct picotm_error e = PICOTM_ERROR_INITIALIZER;
    void* ptr = (void*)key[o->key];
    trace(P, "%d:%s %p", t, names[o->k], ptr);
    switch (o->k) {
    case SET: ptr_set_data(ptr, (void*)(uintptr_t)o->val, &e); own[t][o->key] = o->val; active[t] = true; break;
    case CLEAR: ptr_clear_data(ptr, &e); own[t][o->key] = 0; break;
    case GET: {
        uintptr_t v = (uintptr_t)ptr_get_data(ptr, &e);
        trace(P, " = %#lx", v);
        if (v != own[t][o->key]) pbt_fail(P, "own", "thread %d: data of %p is %#lx, expected %#lx", t, ptr, v, own[t][o->key]);
        for (int i = 0; i < nkeys; ++i) if (v && i != o->key && own[t][i]) interesting = 1;
        break;
    }
    case SSET: ptr_set_shared_data(ptr, (void*)(uintptr_t)o->val, &e); shared[o->key] = o->val; defined[o->key] = true; active[t] = true; break;
    case SCLEAR: ptr_clear_shared_data(ptr, &e); shared[o->key] = 0; defined[o->key] = true; break;
    case SGET: {
        uintptr_t v = (uintptr_t)ptr_get_shared_data(ptr, &e);
        trace(P, " = %#lx", v);
        if (v != shared[o->key]) {
            /* shared data might not outlive its last user */
            if (!defined[o->key] && !v) { shared[o->key] = 0; defined[o->key] = true; }
            else pbt_fail(P, "shared", "thread %d: shared data of %p is %#lx, expected %#lx", t, ptr, v, shared[o->key]);
        }
        for (int i = 0; i < nkeys; ++i) if (v && i != o->key && shared[i]) interesting = 1;
        break;
    }
    case STAS: {
        if (!defined[o->key]) { ptr_set_shared_data(ptr, (void*)shared[o->key], &e); ok(&e, "setting"); defined[o->key] = true; }
        uintptr_t want = o->expect == 0 ? shared[o->key] : o->expect == 1 ? 0 : shared[o->key] + o->expect;
        bool r = ptr_test_and_set_shared_data(ptr, (void*)want, (void*)(uintptr_t)o->val, &e);
        active[t] = true;
        trace(P, " = %d", r);
        if (r != (want == shared[o->key])) pbt_fail(P, "test-and-set", "thread %d: test-and-set of %p from %#lx returned %d with current data %#lx", t, ptr, want, r, shared[o->key]);
        if (r) shared[o->key] = o->val;
        break;
    }
    case REL:
        picotm_release();
        active[t] = false;
        memset(own[t], 0, sizeof own[t]);
        { bool any = false; for (int i = 0; i < nthreads; ++i) any |= active[i]; if (!any) memset(defined, 0, sizeof defined); }
        break;
    }
    ok(&e, names[o->k]);
    trace(P, "; ");
}
/* the module is a helper for others, which call it within transactions */
__attribute__((noinline)) static void run_tx(int t, struct op* o)
{
    static __thread volatile int att;
    att = 0;
    picotm_begin
        if (att++ == 0) one(t, o);
        if (o->intx > 2 && att == 1) picotm_resolve_conflict(NULL);
    picotm_commit
        pbt_fail(P, "error", "recovery with status %d", picotm_error_status());
    picotm_end
}
static void body(int t)
{
    counting = true;
    for (int i = 0; i < prog[t].n; ++i) {
        mt_point();
        struct op* o = &prog[t].o[i];
        if (o->intx && o->k != REL) run_tx(t, o); else one(t, o);
    }
    mt_point();
    struct op r = { .k = REL };
    one(t, &r);
    counting = false;
}

static pthread_barrier_t bar;
static int wins[MAXT][NK]; static uintptr_t winner[NK]; static unsigned long added[MAXT][NK];
static void race_body(int t)
{
    struct picotm_error e = PICOTM_ERROR_INITIALIZER;
    pthread_barrier_wait(&bar);
    for (int i = 0; i < prog[t].n; ++i) {
        struct op* o = &prog[t].o[i];
        for (int k = 0; k < nkeys; ++k) {
            int j = (k + o->key) % nkeys;
            void* ptr = (void*)key[j];
            if (j % 3 == 0) {                       /* first come, first served */
                uintptr_t mine = 1000 + t;
                if (ptr_test_and_set_shared_data(ptr, NULL, (void*)mine, &e)) ++wins[t][j];
                uintptr_t v = (uintptr_t)ptr_get_shared_data(ptr, &e);
                if (!v || (wins[t][j] && v != mine)) pbt_fail(P, "claim", "thread %d: claimed pointer %p reads %#lx", t, ptr, v);
                uintptr_t z = 0; 
                if (!__atomic_compare_exchange_n(&winner[j], &z, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST) && z != v) pbt_fail(P, "claim", "pointer %p claimed by %#lx and %#lx", ptr, z, v);
            } else {
                for (int n = 0; n < 3; ++n) {
                    uintptr_t v;
                    do v = (uintptr_t)ptr_get_shared_data(ptr, &e); while (!ptr_test_and_set_shared_data(ptr, (void*)v, (void*)(v + 1), &e));
                    ++added[t][j];
                }
            }
            ptr_set_data(ptr, (void*)(uintptr_t)(t * 1000 + i * NK + j), &e);
            for (int n = 0; n < nkeys; ++n) {
                uintptr_t v = (uintptr_t)ptr_get_data((void*)key[n], &e);
                uintptr_t d = t * 1000 + i * NK + n, w = i ? d - NK : 0;
                bool done = (n - o->key + nkeys) % nkeys <= k;
                if (v != (done ? d : w)) pbt_fail(P, "own", "thread %d: data of %#lx is %#lx, expected %#lx", t, key[n], v, done ? d : w);
            }
        }
    }
    pthread_barrier_wait(&bar);
    for (int j = 0; j < nkeys; ++j) {
        uintptr_t v = (uintptr_t)ptr_get_shared_data((void*)key[j], &e), w = 0;
        int nw = 0;
        for (int s = 0; s < nthreads; ++s) { w += added[s][j]; nw += wins[s][j]; }
        if (j % 3 == 0) { if (nw != 1) pbt_fail(P, "claim", "pointer %#lx was claimed %d times", key[j], nw); }
        else if (v != w) pbt_fail(P, "lost", "counter of %#lx is %lu, expected %lu", key[j], v, w);
    }
    ok(&e, "an operation");
    pthread_barrier_wait(&bar);
    picotm_release();
}

void prop_case(struct pbt* p)
{
    P = p;
    bool race = !strcmp(pbt_mode, "race");
    nthreads = race ? 2 + pbt_draw(p, MAXT - 1) : 1 + pbt_draw(p, MAXT);
    nkeys = 1 + pbt_draw(p, NK);
    for (int i = 0; i < nkeys; ++i) {
        for (;;) {
            uintptr_t base = i && pbt_chance(p, 3, 4) ? key[pbt_draw(p, i)] : pbt_draw(p, 4) ? pbt_draw(p, 0) : pbt_draw(p, 300);
            switch (pbt_draw(p, 4)) {
            case 0: base ^= (uintptr_t)pbt_draw(p, 256) << 8 * pbt_draw(p, 8); break;
            case 1: base += pbt_draw(p, 9) - 4; break;
            case 2: base = base << 8 | base >> 56; break;
            case 3: base &= ~0ull >> 8 * pbt_draw(p, 8); break;
            }
            bool dup = false;
            for (int j = 0; j < i; ++j) dup |= key[j] == base;
            if (!dup) { key[i] = base; break; }
            pbt_draw(p, 1);
            key[i] = (i + 1) * 0x10001;
            dup = false; for (int j = 0; j < i; ++j) dup |= key[j] == key[i];
            if (!dup) break;
        }
    }
    memset(own, 0, sizeof own); memset(active, 0, sizeof active); memset(wins, 0, sizeof wins); memset(added, 0, sizeof added); memset(winner, 0, sizeof winner);
    for (int i = 0; i < NK; ++i) { shared[i] = 0; defined[i] = true; }
    interesting = 0;
    for (int t = 0; t < nthreads; ++t) {
        prog[t].n = race ? 1 + pbt_len(p, 20) : 1 + pbt_len(p, MAXOP - 1);
        for (int i = 0; i < prog[t].n; ++i) {
            struct op* o = &prog[t].o[i];
            o->k = PBT_W(p, 6, 6, 2, 6, 6, 2, 4, 1);
            o->key = pbt_draw(p, nkeys);
            o->intx = pbt_chance(p, 1, 4) ? 1 + pbt_draw(p, 4) : 0;
            o->val = pbt_chance(p, 1, 10) ? 0 : pbt_chance(p, 1, 2) ? 1 + pbt_draw(p, 1000) : pbt_draw(p, 0);
            o->expect = pbt_draw(p, 3);
        }
    }
    if (race) {
        pthread_barrier_init(&bar, NULL, nthreads);
        mt_stress(nthreads, race_body);
        pthread_barrier_destroy(&bar);
        interesting = nkeys > 1;
    } else {
        int ns = mt_gen_sched(p, sched, sizeof sched);
        blocks = 0;
        mt_run(nthreads, body, sched, ns);
        if (blocks) pbt_fail(p, "leak", "%ld blocks of memory remain allocated after all threads released their state", blocks);
    }
    if (interesting) pbt_nontrivial(p);
}
