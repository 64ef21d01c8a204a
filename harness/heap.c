/* H01: transactional heap operations against a model of the live blocks. malloc, free and
 * posix_memalign are wrapped; every block the C library hands out is tracked. */
#include "pbt.h"
#include <errno.h>
#include <malloc.h>
#include <picotm/picotm-tm.h>
#include <picotm/string.h>
#include <picotm/stdlib.h>

const char prop_rule[] =
    "8 slots of heap blocks, 1-8 transactions with 1-16 operations per attempt: malloc, calloc, "
    "posix_memalign, realloc (grow, shrink, to zero, of NULL), strdup, strndup, free, stores, copies, "
    "direct accesses to new or privatised memory, loads; sizes 0 to 200, some around 2^32 and SIZE_MAX; "
    "commit, errors, conflicts, irrevocability, recovery+restart. Oracle: model of slots and contents; "
    "every block of the C library is tracked, so that releases are exact (never twice, never before "
    "commit, always after the commit resp. roll-back that requires it); requests the C library cannot "
    "serve must fail with its error. Non-trivial: a committed and a rolled-back attempt, each with an "
    "allocation or release.";

enum { NS = 8, MAXSZ = 200, ATT_MAXOPS = 16 };
struct aop { int k; unsigned s, n, x; size_t big; unsigned char v; };
#include "att.h"

/* tracking */
struct blk { void* p; size_t n; unsigned id; };
enum { NB = 8192 };
static struct blk tab[NB];
static unsigned nextid = 1;
static struct { void* p; size_t n; } quar[4096]; static int nquar;
static int tracking;

extern void* __real_malloc(size_t); extern void __real_free(void*); extern int __real_posix_memalign(void**, size_t, size_t);

static unsigned slot_of(const void* p)
{
    unsigned h = ((uintptr_t)p >> 4) * 2654435761u >> 19;
    while (tab[h % NB].p && tab[h % NB].p != p) ++h;
    return h % NB;
}
static void track(void* p, size_t n)
{
    unsigned h = slot_of(p);
    tab[h].p = p; tab[h].n = n; tab[h].id = nextid++;
}
void* __wrap_malloc(size_t n)
{
    if (n > (1ul << 30)) { errno = ENOMEM; return NULL; }
    void* p = __real_malloc(n);
    if (p && tracking) { memset(p, 0xa5, n); track(p, n); }
    return p;
}
int __wrap_posix_memalign(void** r, size_t al, size_t n)
{
    if (n > (1ul << 30) && al && !(al & (al - 1)) && al % sizeof(void*) == 0) return ENOMEM;
    int e = __real_posix_memalign(r, al, n);
    if (!e && tracking) { memset(*r, 0xa5, n); track(*r, n); }
    return e;
}
void __wrap_free(void* p)
{
    if (!p || !tracking) { __real_free(p); return; }
    unsigned h = slot_of(p);
    if (!tab[h].p) { __real_free(p); return; }      /* from before tracking; ASan judges */
    if (!tab[h].id) pbt_fail(P, "double-free", "attempt %d: block %p is released twice", att_cur, p);
    tab[h].id = 0;
    if (nquar < 4096) { memset(p, 0xdd, tab[h].n); quar[nquar].p = p; quar[nquar++].n = tab[h].n; }
}
static unsigned id_of(const void* p) { return tab[slot_of(p)].id; }     /* 0: not live */

struct slot { unsigned char* p; unsigned id; unsigned n; unsigned al; int fresh; unsigned char v[MAXSZ]; unsigned char def[MAXSZ]; };
static struct slot com[NS], view[NS];
/* blocks released or created by the current attempt */
static struct { void* p; unsigned id; } freed[64], made[64];
static int nfreed, nmade, changed_c, changed_r;
#define T(...) pbt_trace(P, __VA_ARGS__)

static void born(struct slot* s, void* p, unsigned n, unsigned al, const char* f)
{
    if (!p && n) pbt_fail(P, f, "attempt %d: %s returned NULL", att_cur, f);
    s->p = p; s->n = n; s->al = al; s->fresh = 1;
    memset(s->def, 0, MAXSZ);
    s->id = p ? id_of(p) : 0;
    if (p) {
        if (!s->id) pbt_fail(P, f, "attempt %d: %s returned memory that is not allocated", att_cur, f);
        if (tab[slot_of(p)].n < n) pbt_fail(P, "size", "attempt %d: %s of %u bytes returned a block of %zu bytes", att_cur, f, n, tab[slot_of(p)].n);
        if ((uintptr_t)p % al) pbt_fail(P, "alignment", "attempt %d: %s returned %p, requested alignment %u", att_cur, f, p, al);
        for (int i = 0; i < nmade; ++i) if (made[i].p == p) pbt_fail(P, f, "attempt %d: %s returned a block again", att_cur, f);
        for (int i = 0; i < NS; ++i) if (&view[i] != s && view[i].p == p || com[i].p == p) pbt_fail(P, f, "attempt %d: %s returned a block in use", att_cur, f);
        made[nmade].p = p; made[nmade++].id = s->id;
    }
}
static void died(struct slot* s)
{
    if (s->p) { freed[nfreed].p = s->p; freed[nfreed++].id = s->id; }
    s->p = NULL; s->n = 0; s->id = 0;
}

static void check_slot(struct slot* s, const unsigned char* mem, const char* when)
{
    for (unsigned i = 0; i < s->n; ++i)
        if (s->def[i] && mem[i] != s->v[i])
            pbt_fail(P, "contents", "attempt %d: %s: byte %u of slot %d (%u bytes) is %d, expected %d", att_cur, when, i,
                     (int)(s - (s >= com && s < com + NS ? com : view)), s->n, mem[i], s->v[i]);
}

static void att_op(struct aop* o)
{
    struct slot* s = &view[o->s % NS];
    unsigned n = o->n;
    static unsigned char tmp[4096];
    for (int i = 0; i < nmade; ++i) if (id_of(made[i].p) != made[i].id)
        pbt_fail(P, "early-release", "attempt %d: a block of this transaction has been released before its end", att_cur);
    for (int i = 0; i < nfreed; ++i) if (id_of(freed[i].p) != freed[i].id)
        pbt_fail(P, "early-release", "attempt %d: a freed block has been released before commit", att_cur);
    if (nmade > 60 || nfreed > 60) return;
    switch (o->k) {
    case 0: {
        if (s->p) return;
        if (o->big && o->x % 3 == 0) {
            T("malloc(%#zx) ", o->big);
            att_expect(PICOTM_ERRNO, ENOMEM);
            malloc_tx(o->big);
            return;
        }
        T("%d=malloc(%u) ", o->s % NS, n);
        void* p = malloc_tx(n);
        born(s, p, n, 16, "malloc");
        break;
    }
    case 1: {
        if (s->p) return;
        unsigned a = 1 + o->x % 9;
        if (o->big && o->x % 3 == 0) {
            /* overflowing or too large products */
            size_t m = o->x & 4 ? 2 : o->x & 8 ? SIZE_MAX / 2 + 2 : (1ul << 33) + 3;
            size_t b = o->big / 2 + 1 < (1ul << 33) ? (1ul << 33) : o->big / 2 + 1;
            T("calloc(%#zx,%#zx) ", m, b);
            att_expect(PICOTM_ERRNO, ENOMEM);
            calloc_tx(m, b);
            return;
        }
        n = n / a * a;
        T("%d=calloc(%u,%u) ", o->s % NS, n / a, a);
        void* p = calloc_tx(n / a, a);
        born(s, p, n, 16, "calloc");
        memset(s->v, 0, n); memset(s->def, 1, n);
        if (p) check_slot(s, p, "after calloc");
        break;
    }
    case 2: {
        if (s->p) return;
        unsigned al = 8u << o->x % 6;
        static void* volatile r;
        static int stat_store;
        if (o->x % 16 == 15) {
            T("posix_memalign(%u) ", 24);
            att_expect(PICOTM_ERRNO, EINVAL);
            posix_memalign_tx((void**)&r, 24, n);
            return;
        }
        if (o->big && o->x % 3 == 0) {
            T("posix_memalign(%#zx) ", o->big);
            att_expect(PICOTM_ERRNO, ENOMEM);
            posix_memalign_tx((void**)&r, al, o->big);
            return;
        }
        T("%d=posix_memalign(%u,%u) ", o->s % NS, al, n);
        void* before = r;
        int e = posix_memalign_tx((void**)&r, al, n);
        if (e) pbt_fail(P, "memalign", "posix_memalign_tx returned %d", e);
        (void)before; (void)stat_store;
        born(s, load_ptr_tx((void*)&r), n, al, "posix_memalign");
        break;
    }
    case 3: {       /* realloc */
        unsigned char ov[MAXSZ], od[MAXSZ];
        unsigned on = s->n;
        memcpy(ov, s->v, MAXSZ); memcpy(od, s->def, MAXSZ);
        if (s->p && o->big && o->x % 3 == 0) {
            T("realloc(%d,%#zx) ", o->s % NS, o->big);
            att_expect(PICOTM_ERRNO, ENOMEM);
            realloc_tx(s->p, o->big);
            return;
        }
        if (!s->p && !n) return;
        T("%d=realloc(%u->%u) ", o->s % NS, on, n);
        int had = !!s->p;
        void* p = realloc_tx(s->p, n);
        died(s);
        born(s, p, n, 16, "realloc");
        if (had && n) {
            unsigned m = on < n ? on : n;
            memcpy(s->v, ov, m); memcpy(s->def, od, m);
            check_slot(s, p, "after realloc");
        }
        break;
    }
    case 4: {       /* strdup of a string in another block */
        struct slot* q = &view[o->x % NS];
        if (s->p || !q->p || !q->n || q == s) return;
        unsigned l = 0;
        while (l < q->n && q->def[l] && q->v[l]) ++l;
        if (l == q->n || !q->def[l]) return;
        bool nd = o->v & 1;
        T("%d=str%sdup(%d) ", o->s % NS, nd ? "n" : "", o->x % NS);
        unsigned m = nd && n < l ? n : l;
        char* p = nd ? strndup_tx((char*)q->p, n) : strdup_tx((char*)q->p);
        born(s, p, m + 1, 1, "strdup");
        memcpy(s->v, q->v, m); s->v[m] = 0; memset(s->def, 1, m + 1);
        check_slot(s, s->p, "after strdup");
        break;
    }
    case 5:
        if (!s->p && o->x % 8) return;
        T("free(%d) ", o->s % NS);
        free_tx(s->p);
        died(s);
        break;
    case 6: case 7: case 8: {       /* stores */
        if (!s->p || !s->n) return;
        unsigned off = o->x % s->n, l = 1 + o->x / 256 % (s->n - off);
        for (unsigned i = 0; i < l; ++i) tmp[i] = o->v + i * 7;
        if (o->v % 5 == 0) tmp[l - 1] = 0;
        T("%s(%d,%u+%u) ", o->k == 6 ? "store" : o->k == 7 ? "memcpy" : "privatize", o->s % NS, off, l);
        if (o->k == 6) store_tx(s->p + off, tmp, l);
        else if (o->k == 7) memcpy_tx(s->p + off, tmp, l);
        else { privatize_tx(s->p + off, l, PICOTM_TM_PRIVATIZE_LOADSTORE); memcpy(s->p + off, tmp, l); }
        memcpy(s->v + off, tmp, l); memset(s->def + off, 1, l);
        s->fresh = 0;
        break;
    }
    case 9:         /* direct initialisation of a new block */
        if (!s->p || !s->fresh) return;
        T("fill(%d) ", o->s % NS);
        for (unsigned i = 0; i < s->n; ++i) { s->p[i] = s->v[i] = o->v + i; s->def[i] = 1; }
        s->fresh = 0;
        break;
    case 10:
        if (!s->p) return;
        T("load(%d) ", o->s % NS);
        load_tx(s->p, tmp, s->n);
        s->fresh = 0;
        check_slot(s, tmp, "loaded");
        break;
    }
}

static void att_start(void)
{
    memcpy(view, com, sizeof(com));
    for (int i = 0; i < NS; ++i) view[i].fresh = 0;
    nfreed = nmade = 0;
    T(" attempt: ");
}
static void att_finish_body(void) { T("=> %s\n", att_endname[att[att_cur].end]); }

static void compare(const char* when)
{
    for (int i = 0; i < NS; ++i) if (com[i].p) {
        if (id_of(com[i].p) != com[i].id) pbt_fail(P, "released", "attempt %d: %s: the block of slot %d is not allocated any longer", att_cur, when, i);
        check_slot(&com[i], com[i].p, when);
    }
}
static void att_committed(void)
{
    if (nfreed + nmade) changed_c = 1;
    for (int i = 0; i < nfreed; ++i) if (id_of(freed[i].p) == freed[i].id)
        pbt_fail(P, "leak", "attempt %d: a freed block is still allocated after commit", att_cur);
    memcpy(com, view, sizeof(com));
    compare("after commit");
}
static void att_rolledback(void)
{
    if (nfreed + nmade) changed_r = 1;
    for (int i = 0; i < nmade; ++i) if (id_of(made[i].p) == made[i].id)
        pbt_fail(P, "leak", "attempt %d: a new block is still allocated after roll-back", att_cur);
    compare("after roll-back");
}

static void gen(struct pbt* p, struct aop* o)
{
    o->k = PBT_W(p, 3, 2, 2, 4, 1, 4, 3, 3, 2, 3, 3);
    o->s = pbt_draw(p, NS);
    o->n = pbt_chance(p, 1, 3) ? pbt_draw(p, MAXSZ + 1) : pbt_draw(p, 40);
    o->x = pbt_draw(p, 1u << 20);
    o->v = pbt_draw(p, 256);
    static const size_t bigs[] = { 0x100000010ul, 0x100000000ul, 0xfffffffful, 0x8000000000ul, SIZE_MAX / 2, SIZE_MAX - 64, SIZE_MAX - 7, SIZE_MAX - 6, SIZE_MAX, 0x4000000001ul };
    o->big = pbt_chance(p, 1, 6) ? bigs[pbt_draw(p, 10)] : 0;
}

void prop_case(struct pbt* p)
{
    P = p;
    memset(tab, 0, sizeof(tab));
    nquar = 0;
    tracking = 1;
    memset(com, 0, sizeof(com));
    changed_c = changed_r = 0;
    int ntx = 1 + pbt_draw(p, 8);
    for (int t = 0; t < ntx; ++t) { att_gen(p, gen, NULL); T("tx %d\n", t); att_run(); }
    tracking = 0;
    for (int i = 0; i < nquar; ++i)
        for (size_t j = 0; j < quar[i].n; ++j)
            if (((unsigned char*)quar[i].p)[j] != 0xdd) pbt_fail(P, "write-after-free", "byte %zu of a released block of %zu bytes was written", j, quar[i].n);
    for (int i = 0; i < nquar; ++i) __real_free(quar[i].p);
    for (int i = 0; i < NS; ++i) __real_free(com[i].p);
    if (changed_c && changed_r) pbt_nontrivial(p);
}
