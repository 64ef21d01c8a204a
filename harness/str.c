/* S01: memory, string, sorting and random-number functions against the C library on a shadow arena. */
#include "pbt.h"
#include <sys/mman.h>
#include <errno.h>
#include <locale.h>
#include <picotm/picotm-tm.h>
#include <picotm/string.h>
#include <picotm/stdlib.h>
#undef strerror_r_tx
#include <picotm/string-tm.h>
#include <picotm/stdlib-tm.h>
#ifdef STR_TM           /* the same for the functions on privatised memory */
#define memccpy_tx memccpy_tm
#define memchr_tx memchr_tm
#define memcmp_tx memcmp_tm
#define memcpy_tx memcpy_tm
#define memmove_tx memmove_tm
#define memset_tx memset_tm
#define memrchr_tx memrchr_tm
#define rawmemchr_tx rawmemchr_tm
#define stpcpy_tx stpcpy_tm
#define stpncpy_tx stpncpy_tm
#define strcat_tx strcat_tm
#define strchr_tx strchr_tm
#define strcpy_tx strcpy_tm
#define strcmp_tx strcmp_tm
#define strcoll_l_tx strcoll_l_tm
#define strcspn_tx strcspn_tm
#define strdup_tx strdup_tm
#define strlen_tx strlen_tm
#define strncat_tx strncat_tm
#define strncmp_tx strncmp_tm
#define strncpy_tx strncpy_tm
#define strndup_tx strndup_tm
#define strnlen_tx strnlen_tm
#define strpbrk_tx strpbrk_tm
#define strrchr_tx strrchr_tm
#define strspn_tx strspn_tm
#define strstr_tx strstr_tm
#define strtok_r_tx strtok_r_tm
#define qsort_tx qsort_tm
#define rand_r_tx rand_r_tm
#define __strerror_r_gnu_tx __strerror_r_gnu_tm
#define __strerror_r_posix_tx __strerror_r_posix_tm
#endif

const char prop_rule[] =
    "A 160-byte arena ending at an inaccessible page, filled from small or full alphabets, and a shadow "
    "copy. 1-6 transactions with 1-24 calls per attempt of 33 memory/string/sort/random functions with "
    "offsets, lengths and characters valid for the C function (also objects shorter than the length "
    "argument where the C function stops early), mixed with direct loads, stores and privatisation. "
    "Oracle: the C function called on the shadow (results as offsets, signs or contents; arena contents "
    "at transaction end, after commit and after roll-back; touching the inaccessible page is a failure). "
    "Non-trivial: at least 3 string calls in an attempt and at least one that changes memory.";

enum { N = 160, ATT_MAXOPS = 24 };
struct aop { int k; unsigned a, b, c, n, x; unsigned char v[16]; };
#include "att.h"

static char* A;                         /* transactional */
static char com[N], S[N];               /* committed shadow, current shadow */
static char before[N];                  /* scratch */
static char* sp_real; static int sp_shadow, sp_com; static char* sp_creal;  /* strtok_r state */
static char* dups[256]; static int ndup;
static locale_t loc[2];
static int calls, writes, allfull;
static char* dupA[ATT_MAXOPS + 1]; static volatile int ndupA;

void prop_init(void)
{
    char* m = mmap(NULL, 3 * 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(m + 4096, 4096, PROT_READ | PROT_WRITE);
    A = m + 2 * 4096 - N;
    loc[0] = newlocale(LC_ALL_MASK, "C", 0);
    loc[1] = newlocale(LC_ALL_MASK, "C.UTF-8", 0);
    if (!loc[1]) loc[1] = loc[0];
}

static bool isstr(unsigned o) { return memchr(S + o, 0, N - o) != NULL; }
static unsigned slen(unsigned o) { return strlen(S + o); }
static int sgn(int x) { return (x > 0) - (x < 0); }

static void result(const char* f, long got, long want)
{
    ++calls;
    if (got != want) pbt_fail(P, f, "attempt %d: %s gives %ld, the C library %ld", att_cur, f, got, want);
}
static long off(const void* p) { return p ? (const char*)p - A : -1; }
static long offS(const void* p) { return p ? (const char*)p - S : -1; }

static void check_arena(const char* when, const char* got, const char* want)
{
    for (int i = 0; i < N; ++i)
        if (got[i] != want[i])
            pbt_fail(P, "contents", "attempt %d: %s: byte %d of the arena is %d, expected %d", att_cur, when, i,
                     (unsigned char)got[i], (unsigned char)want[i]);
}

static int cmp1(const void* a, const void* b) { return *(const signed char*)a - *(const signed char*)b; }
static int cmp2(const void* a, const void* b) { short x, y; memcpy(&x, a, 2); memcpy(&y, b, 2); return (x > y) - (x < y); }
static int cmp5(const void* a, const void* b) { return memcmp(a, b, 5); }

static bool disjoint(unsigned a, unsigned la, unsigned b, unsigned lb) { return a + la <= b || b + lb <= a; }
#define W() (++writes)
#define T(...) pbt_trace(P, __VA_ARGS__)

static void keepdup(char* p, const char* want, size_t len, const char* f)
{
    if (memcmp(p, want, len)) pbt_fail(P, f, "attempt %d: %s returned other contents than the C library", att_cur, f);
    dupA[ndupA++] = p;
    ++calls;
}

static void att_op(struct aop* o)
{
    unsigned a = o->a % (N + 1), b = o->b % (N + 1), n = o->n;
    unsigned ra = N - a, rb = N - b;        /* bytes up to the end */
    int c = (int)o->c - 8;                  /* includes values outside of unsigned char */
    if (c > 200) c = (c - 200) * 37 - 500;
    unsigned char uc = c;
    const void* f;
    switch (o->k) {
    case 0: {                               /* memccpy: n may exceed both objects if c is found first */
        f = memchr(S + a, uc, ra);
        unsigned need = f && (unsigned)((char*)f - (S + a)) + 1 <= n ? (char*)f - (S + a) + 1 : n;
        if (need > ra || need > rb || !disjoint(a, need, b, need)) return;
        T("memccpy(%u,%u,%d,%u) ", b, a, c, n); W();
        long w = offS(memccpy(S + b, S + a, c, need));
        if (need < n && w < 0) abort();
        result("memccpy", off(memccpy_tx(A + b, A + a, c, n)), w);
        break;
    }
    case 1:
        f = memchr(S + a, uc, ra);
        if (n > ra && !f) return;
        T("memchr(%u,%d,%u) ", a, c, n);
        result("memchr", off(memchr_tx(A + a, c, n)), offS(memchr(S + a, c, n < ra ? n : ra)));
        break;
    case 2:
        if (n > ra || n > rb) return;
        T("memcmp(%u,%u,%u) ", a, b, n);
        result("memcmp", sgn(memcmp_tx(A + a, A + b, n)), sgn(memcmp(S + a, S + b, n)));
        break;
    case 3:
        if (n > ra || n > rb || !disjoint(a, n, b, n)) return;
        T("memcpy(%u,%u,%u) ", b, a, n); W();
        memcpy(S + b, S + a, n);
        result("memcpy", off(memcpy_tx(A + b, A + a, n)), b);
        break;
    case 4:
        if (n > ra || n > rb) return;
        T("memmove(%u,%u,%u) ", b, a, n); W();
        memmove(S + b, S + a, n);
        result("memmove", off(memmove_tx(A + b, A + a, n)), b);
        break;
    case 5:
        if (n > ra) return;
        T("memset(%u,%d,%u) ", a, c, n); W();
        memset(S + a, c, n);
        result("memset", off(memset_tx(A + a, c, n)), a);
        break;
    case 6:
        if (n > ra) return;
        T("memrchr(%u,%d,%u) ", a, c, n);
        result("memrchr", off(memrchr_tx(A + a, c, n)), offS(memrchr(S + a, c, n)));
        break;
    case 7:
        if (!memchr(S + a, uc, ra)) return;
        T("rawmemchr(%u,%d) ", a, c);
        result("rawmemchr", off(rawmemchr_tx(A + a, c)), offS(memchr(S + a, c, ra)));
        break;
    case 8: case 12:                            /* stpcpy, strcpy */
        if (!isstr(a) || slen(a) + 1 > rb || !disjoint(a, slen(a) + 1, b, slen(a) + 1)) return;
        T("%s(%u,%u) ", o->k == 8 ? "stpcpy" : "strcpy", b, a); W();
        if (o->k == 8) { long w = offS(stpcpy(S + b, S + a)); result("stpcpy", off(stpcpy_tx(A + b, A + a)), w); }
        else { strcpy(S + b, S + a); result("strcpy", off(strcpy_tx(A + b, A + a)), b); }
        break;
    case 9: case 13: {                          /* stpncpy, strncpy: src may be unterminated within n */
        if (n > rb || strnlen(S + a, ra) == ra && n > ra) return;
        unsigned l = strnlen(S + a, n < ra ? n : ra);
        if (!disjoint(a, l < n ? l + 1 : n, b, n)) return;
        T("%s(%u,%u,%u) ", o->k == 9 ? "stpncpy" : "strncpy", b, a, n); W();
        if (o->k == 9) { long w = offS(stpncpy(S + b, S + a, n)); result("stpncpy", off(stpncpy_tx(A + b, A + a, n)), w); }
        else { strncpy(S + b, S + a, n); result("strncpy", off(strncpy_tx(A + b, A + a, n)), b); }
        break;
    }
    case 10: {
        if (!isstr(a) || !isstr(b)) return;
        unsigned la = slen(a), lb = slen(b);
        if (lb + la + 1 > rb || !disjoint(a, la + 1, b, lb + la + 1)) return;
        T("strcat(%u,%u) ", b, a); W();
        strcat(S + b, S + a);
        result("strcat", off(strcat_tx(A + b, A + a)), b);
        break;
    }
    case 11:
        if (!isstr(a)) return;
        T("strchr(%u,%d) ", a, c);
        result("strchr", off(strchr_tx(A + a, c)), offS(strchr(S + a, c)));
        break;
    case 14:
        if (!isstr(a) || !isstr(b)) return;
        T("strcmp(%u,%u) ", a, b);
        result("strcmp", sgn(strcmp_tx(A + a, A + b)), sgn(strcmp(S + a, S + b)));
        break;
    case 15:
        if (!isstr(a) || !isstr(b)) return;
        T("strcoll_l(%u,%u) ", a, b);
        result("strcoll_l", sgn(strcoll_l_tx(A + a, A + b, loc[o->x % 2])), sgn(strcoll_l(S + a, S + b, loc[o->x % 2])));
        break;
    case 16:
        if (!isstr(a) || !isstr(b)) return;
        T("strcspn(%u,%u) ", a, b);
        result("strcspn", strcspn_tx(A + a, A + b), strcspn(S + a, S + b));
        break;
    case 17:
        if (!isstr(a)) return;
        T("strdup(%u) ", a);
        keepdup(strdup_tx(A + a), S + a, slen(a) + 1, "strdup");
        break;
    case 18: {                                  /* strndup: need not be terminated within n */
        unsigned l = strnlen(S + a, ra < n ? ra : n);
        if (l == ra && n > ra) return;
        T("strndup(%u,%u) ", a, n);
        char w[N + 1];
        memcpy(w, S + a, l); w[l] = 0;
        keepdup(strndup_tx(A + a, n), w, l + 1, "strndup");
        break;
    }
    case 19:
        if (!isstr(a)) return;
        T("strlen(%u) ", a);
        result("strlen", strlen_tx(A + a), slen(a));
        break;
    case 20: {                                  /* strncat */
        if (!isstr(b)) return;
        unsigned l = strnlen(S + a, ra < n ? ra : n), lb = slen(b);
        if (l == ra && n > ra || lb + l + 1 > rb || !disjoint(a, l + 2, b, lb + l + 2)) return;   /* ASAN counts the terminator twice */
        T("strncat(%u,%u,%u) ", b, a, n); W();
        strncat(S + b, S + a, n);
        result("strncat", off(strncat_tx(A + b, A + a, n)), b);
        break;
    }
    case 21: {                                  /* strncmp: stops at the first difference or end */
        unsigned i = 0;
        while (i < n && i < ra && i < rb && S[a + i] && S[a + i] == S[b + i]) ++i;
        if (i < n && (i >= ra || i >= rb)) return;
        T("strncmp(%u,%u,%u) ", a, b, n);
        unsigned m = n < N ? n : N;
        int w = i >= n ? 0 : (unsigned char)S[a + i] - (unsigned char)S[b + i];
        /* the arrays may be unterminated, but POSIX requires n bytes or a terminator in each */
        if (strnlen(S + a, ra) == ra && n > ra || strnlen(S + b, rb) == rb && n > rb) return;
        (void)m;
        result("strncmp", sgn(strncmp_tx(A + a, A + b, n)), sgn(w));
        break;
    }
    case 22: {
        unsigned l = strnlen(S + a, ra < n ? ra : n);
        if (l == ra && n > ra) return;
        T("strnlen(%u,%u) ", a, n);
        result("strnlen", strnlen_tx(A + a, n), l);
        break;
    }
    case 23:
        if (!isstr(a) || !isstr(b)) return;
        T("strpbrk(%u,%u) ", a, b);
        result("strpbrk", off(strpbrk_tx(A + a, A + b)), offS(strpbrk(S + a, S + b)));
        break;
    case 24:
        if (!isstr(a)) return;
        T("strrchr(%u,%d) ", a, c);
        result("strrchr", off(strrchr_tx(A + a, c)), offS(strrchr(S + a, c)));
        break;
    case 25:
        if (!isstr(a) || !isstr(b)) return;
        T("strspn(%u,%u) ", a, b);
        result("strspn", strspn_tx(A + a, A + b), strspn(S + a, S + b));
        break;
    case 26:
        if (!isstr(a) || !isstr(b)) return;
        T("strstr(%u,%u) ", a, b);
        result("strstr", off(strstr_tx(A + a, A + b)), offS(strstr(S + a, S + b)));
        break;
    case 27: case 28: case 29: {                /* strtok_r: start or go on */
        bool start = o->k == 27 || sp_shadow < 0;
        char d[4] = { "abc,"[o->x % 4], "abc,"[o->x / 4 % 4], 0, 0 };
        if (start ? !isstr(a) : !isstr(sp_shadow)) return;
        T(start ? "strtok_r(%u,\"%s\") " : "strtok_r(NULL[%d],\"%s\") ", start ? (int)a : sp_shadow, d); W();
        char* sv = sp_shadow < 0 ? NULL : S + sp_shadow;
        static char dl[4];
        memcpy(dl, d, 4);
        long w = offS(strtok_r(start ? S + a : NULL, d, &sv));
        long g = off(strtok_r_tx(start ? A + a : NULL, dl, &sp_real));
        sp_shadow = sv - S;
        result("strtok_r", g, w);
        result("strtok_r's saved position", off(load_ptr_tx(&sp_real)), sp_shadow);
        break;
    }
    case 30: {                                  /* strerror_r */
        int e = o->x % 134;
        if (n > ra) return;
        char w[100];
        if (__xpg_strerror_r(e, w, sizeof(w))) {     /* unknown */
            if (o->x & 256) {
                if (picotm_is_irrevocable()) return;
                T("strerror_r(%d,%u,%u) ", e, a, n);
                att_expect(PICOTM_ERRNO, EINVAL);
                __strerror_r_posix_tx(e, A + a, n);
                return;
            }
            T("gnu strerror_r(%d,%u,%u) ", e, a, n); W();
            if (!n) return;
            char* x = strerror_r(e, S + a, n);
            result("strerror_r", off(__strerror_r_gnu_tx(e, A + a, n)), offS(x));
            return;
        }
        if (o->x & 256) {
            T("strerror_r(%d,%u,%u) ", e, a, n); W();
            if (o->x & 512) n = strlen(w) + (o->x >> 6 & 1);        /* just enough or not */
            if (n > ra) return;
            if (strlen(w) >= n) {       /* POSIX leaves open what's in the buffer */
                result("strerror_r", __strerror_r_posix_tx(e, A + a, n), ERANGE);
                load_tx(A + a, S + a, n);
                return;
            }
            result("strerror_r", __strerror_r_posix_tx(e, A + a, n), __xpg_strerror_r(e, S + a, n));
        } else {
            T("gnu strerror_r(%d,%u,%u) ", e, a, n);
            char* g = __strerror_r_gnu_tx(e, A + a, n);
            ++calls;
            if (strcmp(g, w)) pbt_fail(P, "strerror_r", "GNU strerror_r(%d) gives \"%s\" instead of \"%s\"", e, g, w);
        }
        break;
    }
    case 31: {                                  /* qsort */
        static const unsigned ws[] = { 1, 2, 5 };
        static int (*const cs[])(const void*, const void*) = { cmp1, cmp2, cmp5 };
        unsigned wd = ws[o->x % 3], nel = n / wd;
        if (n > ra) return;
        T("qsort(%u,%u,%u) ", a, nel, wd); W();
        qsort(S + a, nel, wd, cs[o->x % 3]);
        qsort_tx(A + a, nel, wd, cs[o->x % 3]);
        ++calls;
        break;
    }
    case 32: {                                  /* rand_r */
        unsigned s = a & ~3u;
        if (s + 4 > N) return;
        T("rand_r(%u) ", s); W();
        unsigned* q = (unsigned*)before;
        memcpy(q, S + s, 4);
        long w = rand_r(q);
        memcpy(S + s, q, 4);
        result("rand_r", rand_r_tx((unsigned*)(A + s)), w);
        break;
    }
    case 33:
        if (n > sizeof(o->v) || n > ra) return;
        T("store(%u,%u) ", a, n);
        memcpy(S + a, o->v, n);
        store_tx(A + a, o->v, n);
        break;
    case 34:
        if (n > ra) return;
        T("load(%u,%u) ", a, n);
        load_tx(A + a, before, n);
        if (memcmp(before, S + a, n)) pbt_fail(P, "load", "attempt %d: load of bytes %u+%u differs from the shadow", att_cur, a, n);
        break;
    case 35:
        if (n > ra) return;
        T("privatize(%u,%u) ", a, n);
        privatize_tx(A + a, n, 1 + o->x % 3);
        if (memcmp(A + a, S + a, n)) pbt_fail(P, "privatize", "attempt %d: privatized bytes %u+%u differ from the shadow", att_cur, a, n);
        break;
    }
}

static void att_start(void)
{
    memcpy(S, com, N);
    sp_shadow = sp_com;
    ndupA = 0;
    pbt_trace(P, " attempt: ");
#ifdef STR_TM
    privatize_tx(A, N, PICOTM_TM_PRIVATIZE_LOADSTORE);
    privatize_tx(&sp_real, sizeof sp_real, PICOTM_TM_PRIVATIZE_LOADSTORE);
#endif
}

static void att_finish_body(void)
{
    struct attempt* a = &att[att_cur];
    if (a->nops % 2) {
        load_tx(A, before, N);
        check_arena("view at the end of the transaction", before, S);
    }
    T("=> %s\n", att_endname[a->end]);
}

static void att_committed(void)
{
    memcpy(com, S, N);
    sp_com = sp_shadow;
    check_arena("after commit", A, com);
    if (off(sp_real) != sp_com && sp_com >= 0) pbt_fail(P, "saveptr", "strtok_r's saved position is %ld after commit, expected %d", off(sp_real), sp_com);
    for (int i = 0; i < ndupA; ++i) free(dupA[i]);
}

static void att_rolledback(void)
{
    /* within the restarted transaction nothing has been accessed yet */
    check_arena("after roll-back", A, com);
    if (sp_com >= 0 && off(sp_real) != sp_com) pbt_fail(P, "saveptr", "strtok_r's saved position is %ld after roll-back, expected %d", off(sp_real), sp_com);
}

static void gen(struct pbt* p, struct aop* o)
{
    o->k = pbt_draw(p, 36);
    o->a = pbt_chance(p, 1, 4) ? N - pbt_draw(p, 20) : pbt_draw(p, N + 1);
    o->b = pbt_chance(p, 1, 4) ? N - pbt_draw(p, 20) : pbt_chance(p, 1, 5) ? o->a : pbt_draw(p, N + 1);
    o->n = pbt_chance(p, 1, 8) ? pbt_draw(p, 400) : pbt_chance(p, 1, 3) ? N - (pbt_chance(p, 1, 2) ? o->a : o->b) : pbt_draw(p, 60);
    /* small characters around the alphabet are most likely */
    if (pbt_chance(p, 1, 6)) o->n = 8 * (o->n / 8) + (8 - o->a % 8) % 8 + pbt_draw(p, 3);      /* ends about the boundary of a word */
    o->c = 8 + (pbt_chance(p, 1, 8) ? (pbt_chance(p, 1, 2) ? 201 + pbt_draw(p, 30) : pbt_draw(p, 200)) : "\0abc,"[pbt_draw(p, 5)]);
    o->x = pbt_draw(p, 1024);
    for (int i = 0; i < 16; ++i) o->v[i] = o->k == 33 ? (pbt_chance(p, 1, 4) ? pbt_draw(p, 256) : "a\0bc,"[pbt_draw(p, 5)]) : 0;
}

void prop_case(struct pbt* p)
{
    P = p;
    unsigned nul = 2 + pbt_draw(p, 40);
    allfull = pbt_chance(p, 1, 3);
    for (int i = 0; i < N; ++i) com[i] = pbt_chance(p, 1, nul) ? 0 : allfull ? (char)pbt_draw(p, 256) : "abc,"[pbt_draw(p, 4)];
    memcpy(A, com, N);
    sp_com = -1; sp_real = NULL;
    calls = writes = 0;
    int ntx = 1 + pbt_draw(p, 6);
    for (int t = 0; t < ntx; ++t) { att_gen(p, gen, NULL); T("tx %d\n", t); att_run(); }
    if (calls >= 3 && writes) pbt_nontrivial(p);
}
