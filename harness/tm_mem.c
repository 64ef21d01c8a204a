/* C01: transactional memory against a byte-array model, single thread. */
#include "pbt.h"
#include <picotm/picotm.h>
#include <picotm/picotm-module.h>
#include <picotm/picotm-tm.h>
#include <picotm/picotm-tm-ctypes.h>

const char prop_rule[] =
    "1-4 transactions over a 96-byte (or 6000-byte) arena at a random place and misalignment; each has 1-30 operations "
    "(load, store, typed load/store, loadstore, privatize load/store/loadstore/discard with "
    "direct accesses, privatize-until-character) and one of the endings commit, error recovery, "
    "conflict retries (each with other operations), switch to irrevocability, recovery+restart. "
    "Oracle: byte-array model of the transaction's view and of committed memory, incl. bytes around "
    "the arena. Non-trivial: two or more operations touch overlapping bytes, at least one being a write.";

#ifdef TM_BIG
enum { N = 6000, PAD = 32, MAXOPS = 14, MAXATT = 5 };
#define NEAR (pbt_chance(p, 1, 2) ? pbt_draw(p, 24) : pbt_chance(p, 1, 2) ? 2048 - 12 + pbt_draw(p, 24) : 4096 - 12 + pbt_draw(p, 24))
#define LEN (pbt_chance(p, 1, 3) ? pbt_draw(p, 18) : pbt_chance(p, 1, 3) ? pbt_draw(p, N) : pbt_draw(p, 600))
#else
enum { N = 96, PAD = 32, MAXOPS = 30, MAXATT = 12 };
#define NEAR pbt_draw(p, 24)
#define LEN (pbt_draw(p, 4) ? pbt_draw(p, 18) : pbt_draw(p, N))
#endif
enum { O_LOAD, O_STORE, O_TLOAD, O_TSTORE, O_LDST, O_PRIV, O_PRIVC, O_DREAD, O_DWRITE, O_TPRIV, O_DISCARD };
#define TYPES X(bool, _Bool, _Bool) X(char, char, char) X(schar, schar, signed char) X(uchar, uchar, unsigned char) X(short, short, short) X(ushort, ushort, unsigned short) \
    X(int, int, int) X(uint, uint, unsigned) X(long, long, long) X(ulong, ulong, unsigned long) X(llong, llong, long long) X(ullong, ullong, unsigned long long) \
    X(float, float, float) X(double, double, double) X(ldouble, ldouble, long double)
enum {
#define X(id, f, t) T_##id,
    TYPES T_ptr, NTYPES
#undef X
};
static const unsigned tsize[NTYPES] = {
#define X(id, f, t) sizeof(t),
    TYPES sizeof(void*)
#undef X
};
static const char* const opname[] = { "load", "store", "tload", "tstore", "loadstore", "privatize",
    "privatize_c", "dread", "dwrite", "tprivatize", "discard" };
struct op { int k; unsigned off, len, off2, flags; uint8_t data[N]; int c; };
enum { E_COMMIT, E_ERROR, E_ERRNO, E_CONFLICT, E_IRREV, E_RECOVER_RESTART };
struct attempt { int nops; struct op op[MAXOPS]; int end; };

static uint8_t* raw;            /* PAD + N + PAD */
static uint8_t* mem;
static uint8_t committed[N], view[N], init_raw[N + 2 * PAD + 16];
static uint8_t priv[N];         /* bit 1: may read directly, bit 2: may write directly */
static uint8_t disc[N / 8 + 2]; /* discarded blocks, index by (addr>>3) - base */
static uint8_t touched[N], touchedw[N];
static struct attempt att[MAXATT];
static int natt;
static volatile int cur_att, recovered, expect_oob, overlap;
static volatile int commits;
static struct pbt* P;

static size_t blk(unsigned off) { return (((uintptr_t)mem + off) >> 3) - ((uintptr_t)mem >> 3); }

static bool hits_disc(unsigned off, unsigned len)
{
    for (unsigned i = 0; i < len; ++i) if (disc[blk(off + i)]) return true;
    return false;
}

static void touch(unsigned off, unsigned len, bool w)
{
    for (unsigned i = off; i < off + len; ++i) {
        if (w ? touched[i] : touchedw[i]) overlap = 1;
        touched[i] = 1;
        touchedw[i] |= w;
    }
}

static void hex(char* o, const uint8_t* b, size_t n)
{
    for (size_t i = 0; i < n; ++i) o += sprintf(o, "%02x", b[i]);
    *o = 0;
}

static void cmp(const char* what, unsigned off, const uint8_t* got, const uint8_t* want, size_t n)
{
    if (!memcmp(got, want, n)) return;
    char a[2 * 96 + 1], b[2 * 96 + 1];
    size_t i = 0;
    if (n > 96) while (i + 96 < n && got[i] == want[i]) ++i;
    hex(a, got + i, n - i < 96 ? n - i : 96);
    hex(b, want + i, n - i < 96 ? n - i : 96);
    pbt_fail(P, what, "attempt %d: %s at offset %u length %zu (+%zu): got %s, model %s", cur_att, what, off, n, i, a, b);
}

/* block-granular flags: privatizing makes whole 8-byte blocks write-through, but the
 * caller may only use the bytes it asked for. */
static void run_op(struct op* o)
{
    static uint8_t buf[N];
    unsigned off = o->off, len = o->len;
    switch (o->k) {
    case O_LOAD:
        if (hits_disc(off, len)) expect_oob = 1;
        memset(buf, 0xee, sizeof(buf));
        load_tx(mem + off, buf, len);
        if (expect_oob) pbt_fail(P, "discard", "load of discarded memory succeeded");
        touch(off, len, false);
        cmp("load", off, buf, view + off, len);
        break;
    case O_STORE:
        if (hits_disc(off, len)) expect_oob = 1;
        store_tx(mem + off, o->data, len);
        if (expect_oob) pbt_fail(P, "discard", "store to discarded memory succeeded");
        touch(off, len, true);
        memcpy(view + off, o->data, len);
        break;
    case O_TLOAD:
        if (hits_disc(off, len)) expect_oob = 1;
        memset(buf, 0, sizeof(long double));
        switch (o->c) {
#define X(id, f, t) case T_##id: { t v = load_##f##_tx((void*)(mem + off)); memcpy(buf, &v, sizeof v); break; }
        TYPES
#undef X
        case T_ptr: { void* v = load_ptr_tx(mem + off); memcpy(buf, &v, sizeof v); break; }
        }
        if (o->c == T_ldouble) len = 10;        /* the rest is padding */
        if (o->c == T_bool && view[off] > 1) len = 0;       /* not a value of the type */
        if (expect_oob) pbt_fail(P, "discard", "load of discarded memory succeeded");
        touch(off, o->len, false);
        cmp("typed load", off, buf, view + off, len);
        break;
    case O_TSTORE:
        if (hits_disc(off, len)) expect_oob = 1;
        if (o->c == T_bool) o->data[0] &= 1;
        switch (o->c) {
#define X(id, f, t) case T_##id: { t v; memcpy(&v, o->data, sizeof v); store_##f##_tx((void*)(mem + off), v); break; }
        TYPES
#undef X
        case T_ptr: { void* v; memcpy(&v, o->data, sizeof v); store_ptr_tx(mem + off, v); break; }
        }
        if (expect_oob) pbt_fail(P, "discard", "store to discarded memory succeeded");
        touch(off, len, true);
        memcpy(view + off, o->data, len);
        if (o->c == T_ldouble) load_tx(mem + off + 10, view + off + 10, 6);     /* unspecified */
        break;
    case O_LDST:
        if (hits_disc(off, len) || hits_disc(o->off2, len)) expect_oob = 1;
        loadstore_tx(mem + off, mem + o->off2, len);
        if (expect_oob) pbt_fail(P, "discard", "loadstore on discarded memory succeeded");
        touch(off, len, false);
        touch(o->off2, len, true);
        memcpy(buf, view + off, len);
        memcpy(view + o->off2, buf, len);
        break;
    case O_PRIV:
        if (hits_disc(off, len)) expect_oob = 1;
        privatize_tx(mem + off, len, o->flags);
        if (expect_oob) pbt_fail(P, "discard", "privatizing discarded memory succeeded");
        touch(off, len, o->flags & PICOTM_TM_PRIVATIZE_STORE);
        for (unsigned i = off; i < off + len; ++i)
            priv[i] |= (o->flags & PICOTM_TM_PRIVATIZE_STORE) ? 3 : 1;
        cmp("privatized memory", off, mem + off, view + off, len);
        break;
    case O_TPRIV:
        if (hits_disc(off, len)) expect_oob = 1;
        switch (o->c) {
#define X(id, f, t) case T_##id: privatize_##f##_tx((void*)(mem + off), o->flags); break;
        TYPES
#undef X
        case T_ptr: privatize_tx(mem + off, sizeof(void*), o->flags); break;
        }
        if (expect_oob) pbt_fail(P, "discard", "privatizing discarded memory succeeded");
        touch(off, len, o->flags & PICOTM_TM_PRIVATIZE_STORE);
        for (unsigned i = off; i < off + len; ++i)
            priv[i] |= (o->flags & PICOTM_TM_PRIVATIZE_STORE) ? 3 : 1;
        cmp("privatized memory", off, mem + off, view + off, len);
        break;
    case O_PRIVC: {
        unsigned end = off;
        while (end < N && view[end] != o->c) ++end;
        if (end == N) return;           /* character not in the arena: not legal */
        if (hits_disc(off, end - off + 1)) return;
        len = end - off + 1;
        privatize_c_tx(mem + off, o->c, o->flags);
        touch(off, len, o->flags & PICOTM_TM_PRIVATIZE_STORE);
        for (unsigned i = off; i <= end; ++i)
            priv[i] |= (o->flags & PICOTM_TM_PRIVATIZE_STORE) ? 3 : 1;
        cmp("memory privatized up to a character", off, mem + off, view + off, len);
        break;
    }
    case O_DREAD:
        for (unsigned i = off; i < off + len; ++i)
            if ((priv[i] & 1) && !disc[blk(i)]) {
                touch(i, 1, false);
                cmp("direct read", i, mem + i, view + i, 1);
            }
        break;
    case O_DWRITE:
        for (unsigned i = off; i < off + len; ++i)
            if ((priv[i] & 2) && !disc[blk(i)]) {
                touch(i, 1, true);
                mem[i] = view[i] = o->data[i - off];
            }
        break;
    case O_DISCARD: {
        /* whole blocks inside the arena only: the call ends their use by this transaction */
        unsigned a = (8 - ((uintptr_t)(mem + off) & 7)) & 7;
        off += a;
        if (off + 8 > N) return;
        len = (len / 8 + 1) * 8;
        while (off + len > N) len -= 8;
        if (hits_disc(off, len)) expect_oob = 1;
        privatize_tx(mem + off, len, 0);
        if (expect_oob) pbt_fail(P, "discard", "discarding discarded memory succeeded");
        touch(off, len, true);
        for (unsigned i = off; i < off + len; ++i) {
            disc[blk(i)] = 1;
            priv[i] = 0;
        }
        break;
    }
    }
}

static void check_all(const char* when)
{
    if (memcmp(raw, init_raw, mem - raw) ||
        memcmp(mem + N, init_raw + (mem - raw) + N, PAD))
        pbt_fail(P, "outside", "%s: bytes outside the accessed range changed", when);
    cmp(when, 0, mem, committed, N);
}

static void run_tx(void)
{
    static bool done;
    cur_att = -1;
    recovered = 0;
    done = false;
    picotm_begin
        ++cur_att;
        if (cur_att >= natt)
            pbt_fail(P, "retries", "transaction executed more often than its endings explain (%d)", cur_att);
        if (cur_att > 0) check_all("memory after rollback");
        memcpy(view, committed, N);
        memset(priv, 0, sizeof(priv));
        memset(disc, 0, sizeof(disc));
        expect_oob = 0;
        struct attempt* a = &att[cur_att];
        for (int i = 0; i < a->nops; ++i) run_op(&a->op[i]);
        /* privatized memory must stay in step with the transaction's view to the end */
        for (unsigned i = 0; i < N; ++i)
            if ((priv[i] & 1) && !disc[blk(i)]) cmp("privatized memory at end", i, mem + i, view + i, 1);
        switch (a->end) {
        case E_ERROR: picotm_recover_from_error_code(PICOTM_GENERAL_ERROR); break;
        case E_ERRNO: case E_RECOVER_RESTART: picotm_recover_from_errno(4711); break;
        case E_CONFLICT: picotm_resolve_conflict(NULL); break;
        case E_IRREV: if (!picotm_is_irrevocable()) picotm_irrevocable(); break;
        }
    picotm_commit
        recovered = 1;
        check_all("memory after error recovery");
        struct attempt* a = &att[cur_att];
        if (expect_oob) {
            if (picotm_error_status() != PICOTM_ERROR_CODE || picotm_error_as_error_code() != PICOTM_OUT_OF_BOUNDS)
                pbt_fail(P, "error", "access to discarded memory reported status %d code %d",
                         picotm_error_status(), picotm_error_as_error_code());
        } else if (a->end == E_ERROR) {
            if (picotm_error_status() != PICOTM_ERROR_CODE || picotm_error_as_error_code() != PICOTM_GENERAL_ERROR)
                pbt_fail(P, "error", "error code not delivered");
        } else if (a->end == E_ERRNO || a->end == E_RECOVER_RESTART) {
            if (picotm_error_status() != PICOTM_ERRNO || picotm_error_as_errno() != 4711)
                pbt_fail(P, "error", "errno not delivered");
            if (a->end == E_RECOVER_RESTART && cur_att + 1 < natt) picotm_restart();
        } else {
            pbt_fail(P, "error", "unexpected recovery: status %d code %d", picotm_error_status(),
                     picotm_error_as_error_code());
        }
        done = true;
    picotm_end
    if (!recovered || !done) {
        if (expect_oob) pbt_fail(P, "discard", "committed after access to discarded memory");
        for (unsigned i = 0; i < N; ++i)
            if (disc[blk(i)]) view[i] = mem[i];    /* content of discarded memory is unspecified */
        memcpy(committed, view, N);
        ++commits;
        check_all("memory after commit");
    }
}

static void gen_op(struct pbt* p, struct op* o, bool allow_disc)
{
    o->k = allow_disc && pbt_chance(p, 1, 12) ? O_DISCARD : (int)PBT_W(p, 5, 7, 2, 2, 3, 4, 2, 3, 4, 1);
    /* concentrate on a few blocks so that operations overlap */
    o->off = pbt_chance(p, 2, 3) ? NEAR : pbt_draw(p, N);
    o->len = LEN;
    if (o->len > N - o->off) o->len = N - o->off;
    o->off2 = o->flags = o->c = 0;
    if (o->k == O_TLOAD || o->k == O_TSTORE || o->k == O_TPRIV) {
        o->c = pbt_draw(p, NTYPES);
        o->len = tsize[o->c];
        if (o->off + 16 > N) o->off -= 16;
        o->flags = 1 + pbt_draw(p, 3);
    }
    switch (o->k) {
    case O_LDST:
        o->off2 = pbt_chance(p, 2, 3) ? NEAR : pbt_draw(p, N);
        if (o->len > N - o->off2) o->len = N - o->off2;
        /* overlapping regions are unspecified, as for memcpy */
        if (o->off < o->off2 ? o->off + o->len > o->off2 : o->off2 + o->len > o->off)
            o->len = o->off < o->off2 ? o->off2 - o->off : o->off - o->off2;
        break;
    case O_STORE: case O_TSTORE: case O_DWRITE: {
        unsigned n = o->len;
        if (o->k == O_TSTORE && o->c == T_ldouble) { long double v = (long double)pbt_range(p, -1000, 1000) / 3; memcpy(o->data, &v, sizeof v); break; }
        uint8_t base = pbt_draw(p, 256);
        bool rnd = n <= 96 && pbt_chance(p, 1, 4);
        for (unsigned i = 0; i < n; ++i) o->data[i] = rnd ? pbt_draw(p, 4) : base + i * 7;
        break;
    }
    case O_PRIV:
        o->flags = 1 + pbt_draw(p, 3);
        break;
    case O_PRIVC:
        o->flags = 1 + pbt_draw(p, 3);
        o->c = pbt_chance(p, 1, 3) ? (int)pbt_draw(p, 256) : (int)pbt_draw(p, 4);
        break;
    }
}

static void show(struct pbt* p, struct attempt* a)
{
    static const char* const e[] = { "commit", "error", "errno", "conflict", "irrevocable", "recover+restart" };
    for (int i = 0; i < a->nops; ++i) {
        struct op* o = &a->op[i];
        if (o->k == O_LDST) pbt_trace(p, "loadstore(%u->%u,%u) ", o->off, o->off2, o->len);
        else if (o->k == O_PRIVC) pbt_trace(p, "privatize_c(%u,'%02x',%u) ", o->off, o->c, o->flags);
        else if (o->k == O_PRIV) pbt_trace(p, "privatize(%u,%u,%u) ", o->off, o->len, o->flags);
        else pbt_trace(p, "%s(%u,%u%s) ", opname[o->k], o->off, o->len, "");
    }
    pbt_trace(p, "=> %s\n", e[a->end]);
}

void prop_case(struct pbt* p)
{
    P = p;
    unsigned mis = pbt_draw(p, 16);
    enum { MAP = 1 << 16 };
    static uint8_t* map;
    if (!map) map = aligned_alloc(4096, MAP);
    unsigned place = pbt_chance(p, 1, 3) ? pbt_draw(p, 256) : 119 + pbt_draw(p, 10);     /* also across records of the memory module */
    raw = map + 16 * place;
    mem = raw + PAD + mis;
    for (int i = 0; i < N + 2 * PAD + 16; ++i) raw[i] = init_raw[i] = i * 37 + 11;
    uint8_t mod = pbt_chance(p, 1, 2) ? 4 : 0;
    for (int i = 0; i < N; ++i) { if (mod) mem[i] %= mod; committed[i] = mem[i]; init_raw[PAD + mis + i] = mem[i]; }
    memset(touched, 0, sizeof(touched));
    memset(touchedw, 0, sizeof(touchedw));
    overlap = 0;
    int ntx = 1 + pbt_draw(p, 4);
    for (int t = 0; t < ntx; ++t) {
        natt = 0;
        pbt_trace(p, "tx%d (arena %%8=%u):\n", t, mis % 8);
        bool irrev = false;
        for (;;) {
            struct attempt* a = &att[natt];
            a->nops = 1 + pbt_len(p, MAXOPS - 1);
            bool disc_ok = pbt_chance(p, 1, 5);
            for (int i = 0; i < a->nops; ++i) gen_op(p, &a->op[i], disc_ok);
            a->end = natt < MAXATT - 2 ? (int)PBT_W(p, 10, 2, 2, 4, 2, 1) : E_COMMIT;
            if (a->end == E_IRREV && irrev) a->end = E_COMMIT;
            if (irrev && a->end == E_CONFLICT) a->end = E_COMMIT;
            if (a->end == E_IRREV) irrev = true;
            if (a->end == E_RECOVER_RESTART || a->end == E_CONFLICT) irrev = false;
            show(p, a);
            ++natt;
            if (a->end != E_CONFLICT && a->end != E_IRREV && a->end != E_RECOVER_RESTART) break;
        }
        if (natt > 1) pbt_label(p, "multi-attempt");
        run_tx();
        pbt_label(p, recovered ? "recovered" : "committed");
    }
    if (overlap) pbt_nontrivial(p);
}
