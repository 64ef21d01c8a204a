/* M01: transactional math against the C library. */
#include "pbt.h"
#include <complex.h>
#include <errno.h>
#include <fenv.h>
#include <float.h>
#include <math.h>
#include <picotm/picotm.h>
#include <picotm/picotm-module.h>
#include <picotm/picotm-tm.h>
#include <picotm/picotm-libm.h>
#include <picotm/math.h>
#include <picotm/complex.h>

const char prop_rule[] =
    "Each case is 1-20 calls of one of 252 real and complex functions (all of <math.h> and <complex.h> "
    "picotm wraps, incl. frexp, modf, remquo and nan with memory arguments) on special values, "
    "integers, halves, domain and overflow boundaries and random bit patterns, under a random rounding "
    "mode, with random floating-point exceptions and errno pending, alone or after other calls in the "
    "transaction. Oracle: the C library called directly (result bits; errno; exceptions "
    "the function is specified to report); the rounding mode and exceptions the program saved before. Non-trivial: a call that reports an error, or one that "
    "succeeds while a floating-point exception it could report is pending, or a saved environment restored.";

typedef union {
    double d; float f; long double l; int i; long L; long long Q;
    double complex D; float complex F; long double complex Z; unsigned char b[32];
} V;
#define NOERR (-1)

#define M1(n, R, A, x) \
    static void t_ ## n(const V* v, V* r) { r->R = n ## _tx(v[0].A); } \
    static void n_ ## n(const V* v, V* r) { r->R = n(v[0].A); }
#define M2(n, R, A, B, x) \
    static void t_ ## n(const V* v, V* r) { r->R = n ## _tx(v[0].A, v[1].B); } \
    static void n_ ## n(const V* v, V* r) { r->R = n(v[0].A, v[1].B); }
#define M3(n, R, A, B, C, x) \
    static void t_ ## n(const V* v, V* r) { r->R = n ## _tx(v[0].A, v[1].B, v[2].C); } \
    static void n_ ## n(const V* v, V* r) { r->R = n(v[0].A, v[1].B, v[2].C); }
#include "math_tab.h"
#undef M1
#undef M2
#undef M3

/* memory arguments */
static volatile union { int i; double d; float f; long double l; char s[24]; } tmem, nmem, saved;
#define PF(sfx, T) \
    static void t_frexp ## sfx(const V* v, V* r) { r->T = frexp ## sfx ## _tx(v[0].T, (int*)&tmem); } \
    static void n_frexp ## sfx(const V* v, V* r) { r->T = frexp ## sfx(v[0].T, (int*)&nmem); } \
    static void t_modf ## sfx(const V* v, V* r) { r->T = modf ## sfx ## _tx(v[0].T, (void*)&tmem); } \
    static void n_modf ## sfx(const V* v, V* r) { r->T = modf ## sfx(v[0].T, (void*)&nmem); } \
    static void t_remquo ## sfx(const V* v, V* r) { r->T = remquo ## sfx ## _tx(v[0].T, v[1].T, (int*)&tmem); } \
    static void n_remquo ## sfx(const V* v, V* r) { r->T = remquo ## sfx(v[0].T, v[1].T, (int*)&nmem); } \
    static void t_nan ## sfx(const V* v, V* r) { r->T = nan ## sfx ## _tx((char*)&tmem); } \
    static void n_nan ## sfx(const V* v, V* r) { r->T = nan ## sfx((char*)&nmem); }
PF(, d) PF(f, f) PF(l, l)

struct fn { const char* name; char ret; const char* args; int mask; void (*t)(const V*, V*); void (*n)(const V*, V*); };
static const struct fn fns[] = {
#define M1(n, R, A, x) { #n, #R[0], #A, x, t_ ## n, n_ ## n },
#define M2(n, R, A, B, x) { #n, #R[0], #A #B, x, t_ ## n, n_ ## n },
#define M3(n, R, A, B, C, x) { #n, #R[0], #A #B #C, x, t_ ## n, n_ ## n },
#include "math_tab.h"
#define PT(sfx, T) { "frexp" #sfx, #T[0], #T, NOERR, t_frexp ## sfx, n_frexp ## sfx }, \
    { "modf" #sfx, #T[0], #T, NOERR, t_modf ## sfx, n_modf ## sfx }, \
    { "remquo" #sfx, #T[0], #T #T, FE_INVALID, t_remquo ## sfx, n_remquo ## sfx }, \
    { "nan" #sfx, #T[0], "", NOERR, t_nan ## sfx, n_nan ## sfx },
    PT(, d) PT(f, f) PT(l, l)
};
enum { NF = sizeof(fns) / sizeof(*fns), MAXC = 20 };

static struct pbt* P;
static struct call { const struct fn* f; V a[3]; V want; int werr; int flags; int raise; int mem0; bool reports; } call[MAXC];
static volatile int ncall, at, ended, rstatus, rerrno, rflags, abort_end, rnd, pre_flags, fenvat, fexat, newrnd;
static const int modes[] = { FE_TONEAREST, FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO };
static V got;

static int rsize(char r)
{
    switch (r) { case 'd': case 'L': case 'Q': return 8; case 'f': case 'i': return 4; case 'l': return 10;
                 case 'D': return 16; case 'F': return 8; default: return 26; }
}

static long double gen_real(struct pbt* p, char t)
{
    static const long double sp[] = { 0.0L, -0.0L, 1, -1, 0.5L, -0.5L, 2, INFINITY, -INFINITY, NAN, 1.5L, -1.5L, 2.5L,
        M_PIl, M_PI_2l, M_El, 171.624L, 709.78L, -745.2L, 88.72L, -103.9L, 1024, -1074, 128, -149, 11356.5L, -11399,
        9007199254740992.0L, 4503599627370495.5L, 9223372036854775807.0L, -9223372036854775808.0L, 2147483647.5L };
    long double v;
    switch (PBT_W(p, 4, 3, 2, 2, 3)) {
    case 0: v = sp[pbt_draw(p, sizeof(sp) / sizeof(*sp))]; break;
    case 1: v = (long double)pbt_range(p, -40, 40) / (1 << pbt_draw(p, 4)); break;
    case 2: v = t == 'f' ? FLT_MAX : t == 'd' ? DBL_MAX : LDBL_MAX; if (pbt_chance(p, 1, 2)) v = t == 'f' ? FLT_MIN : t == 'd' ? DBL_MIN : LDBL_MIN;
            v = ldexpl(v, -(int)pbt_draw(p, 30)); break;
    case 3: v = ldexpl(1 + (long double)pbt_draw(p, 1u << 20) / (1u << 20), pbt_range(p, 0, 300) - 150); break;
    default: v = (long double)(int64_t)pbt_draw(p, 0) / ((uint64_t)1 << pbt_draw(p, 63)); break;
    }
    if (pbt_chance(p, 1, 4)) v = -v;
    return v;
}

static void gen_arg(struct pbt* p, char t, V* v)
{
    memset(v, 0, sizeof(*v));
    switch (t) {
    case 'd': v->d = gen_real(p, t); break;
    case 'f': v->f = gen_real(p, t); break;
    case 'l': v->l = gen_real(p, t); break;
    case 'i': v->i = pbt_chance(p, 1, 3) ? (int)pbt_range(p, -20000, 20000) : (int)pbt_range(p, -20, 20); break;
    case 'L': v->L = pbt_chance(p, 1, 3) ? (long)pbt_range(p, -20000, 20000) : (long)pbt_range(p, -20, 20); break;
    case 'D': { double a = gen_real(p, 'd'), b = gen_real(p, 'd'); v->D = CMPLX(a, b); break; }
    case 'F': { float a = gen_real(p, 'f'), b = gen_real(p, 'f'); v->F = CMPLXF(a, b); break; }
    case 'Z': { long double a = gen_real(p, 'l'), b = gen_real(p, 'l'); v->Z = CMPLXL(a, b); break; }
    }
}

static void show(char* o, char t, const V* v)
{
    switch (t) {
    case 'd': sprintf(o, "%a", v->d); break;
    case 'f': sprintf(o, "%a", v->f); break;
    case 'l': sprintf(o, "%La", v->l); break;
    case 'i': sprintf(o, "%d", v->i); break;
    case 'L': case 'Q': sprintf(o, "%ld", v->L); break;
    case 'D': sprintf(o, "%a+i*%a", creal(v->D), cimag(v->D)); break;
    case 'F': sprintf(o, "%a+i*%a", crealf(v->F), cimagf(v->F)); break;
    case 'Z': sprintf(o, "%La+i*%La", creall(v->Z), cimagl(v->Z)); break;
    }
}

static bool isn(char t, const V* v) { return (t == 'd' && isnan(v->d)) || (t == 'f' && isnan(v->f)) || (t == 'l' && isnan(v->l)); }

static bool same(char t, const V* a, const V* b)
{
    V x, y, u, w;
    if (isn(t, a) && isn(t, b)) return true;
    if (t == 'D' || t == 'F' || t == 'Z') {
        char s = t == 'D' ? 'd' : t == 'F' ? 'f' : 'l';
        memset(&x, 0, sizeof(V)); memset(&y, 0, sizeof(V)); memset(&u, 0, sizeof(V)); memset(&w, 0, sizeof(V));
        if (t == 'D') { x.d = creal(a->D); y.d = creal(b->D); u.d = cimag(a->D); w.d = cimag(b->D); }
        if (t == 'F') { x.f = crealf(a->F); y.f = crealf(b->F); u.f = cimagf(a->F); w.f = cimagf(b->F); }
        if (t == 'Z') { x.l = creall(a->Z); y.l = creall(b->Z); u.l = cimagl(a->Z); w.l = cimagl(b->Z); }
        return same(s, &x, &y) && same(s, &u, &w);
    }
    return !memcmp(a, b, rsize(t));
}

static void describe(char* o, const struct call* c)
{
    o += sprintf(o, "%s(", c->f->name);
    for (int i = 0; c->f->args[i]; ++i) { show(o, c->f->args[i], &c->a[i]); o += strlen(o); o += sprintf(o, "%s", c->f->args[i + 1] ? ", " : ""); }
    sprintf(o, ")");
}

__attribute__((noinline)) static void run(void)
{
    at = -1;
    ended = 0;
    picotm_begin
        for (at = 0; at < ncall; ++at) {
            struct call* c = &call[at];
            if (at == fenvat) picotm_libm_save_fenv();
            if (at == fexat) picotm_libm_save_fexcept();
            if (c->raise) feraiseexcept(c->raise);
            memset(&got, 0, sizeof(got));
            c->f->t(c->a, &got);
            /* compare at once: later calls overwrite */
            if (c->werr) break;
            if (!same(c->f->ret, &got, &c->want)) {
                char d[400], g[200], w[200];
                describe(d, c); show(g, c->f->ret, &got); show(w, c->f->ret, &c->want);
                fesetround(FE_TONEAREST);
                pbt_fail(P, "result", "call %d, %s_tx returned %s, the C library %s", at, d, g, w);
            }
        }
        if (fenvat >= 0) fesetround(modes[newrnd]);
        if (fexat == 0) feraiseexcept(FE_INVALID | FE_DIVBYZERO);
        ended = 1;
        if (abort_end) picotm_recover_from_errno(4711);
    picotm_commit
        ended = 2;
        rflags = fetestexcept(FE_ALL_EXCEPT);
        rstatus = picotm_error_status();
        rerrno = rstatus == PICOTM_ERRNO ? picotm_error_as_errno() : 0;
    picotm_end
}

void prop_case(struct pbt* p)
{
    static const int fl[] = { FE_INVALID, FE_DIVBYZERO, FE_OVERFLOW, FE_UNDERFLOW, FE_INEXACT };
    P = p;
    rnd = pbt_draw(p, 5);
    pre_flags = 0;
    for (int i = 0; i < 5; ++i) if (pbt_chance(p, 1, 4)) pre_flags |= fl[i];
    int errno0 = pbt_chance(p, 1, 4) ? EDOM : 0;
    int n = 1 + pbt_len(p, MAXC - 1);
    abort_end = pbt_chance(p, 1, 4);
    fenvat = pbt_chance(p, 1, 5) ? pbt_draw(p, 3) : -1;
    fexat = pbt_chance(p, 1, 6) ? 0 : -1;
    newrnd = pbt_draw(p, 5);
    ncall = n;
    int werr = 0, pend = pre_flags;
    bool raised_inside = false, uses_mem = false;
    char d[400];
    static const char* const tags[] = { "", "0", "123", "0x7ff", "abc", "99999999" };
    for (int i = 0; i < n; ++i) {
        struct call* c = &call[i];
        memset(c, 0, sizeof(*c));
        c->f = &fns[pbt_draw(p, NF)];
        for (int k = 0; c->f->args[k]; ++k) gen_arg(p, c->f->args[k], &c->a[k]);
        if (pbt_chance(p, 1, 4)) { c->raise = fl[pbt_draw(p, 5)]; raised_inside = true; }
    }
    /* the memory argument: a string for nan, else anything; only one such call per case */
    int memcall = -1;
    for (int i = 0; i < n; ++i) {
        const char* s = call[i].f->name;
        if (strncmp(s, "frexp", 5) && strncmp(s, "modf", 4) && strncmp(s, "remquo", 6) && strncmp(s, "nan", 3)) continue;
        if (memcall >= 0) { ncall = n = i; break; }
        memcall = i;
        uses_mem = true;
    }
    memset((void*)&tmem, 0, sizeof(tmem));
    strcpy((char*)&tmem, tags[pbt_draw(p, 6)]);
    memcpy((void*)&nmem, (void*)&tmem, sizeof(tmem));
    memcpy((void*)&saved, (void*)&tmem, sizeof(tmem));
    /* compilers expand these inline for the default rounding mode */
    static const char* const inl[] = { "rint", "nearbyint", "floor", "ceil", "trunc", "round", "lrint", "llrint", "lround", "llround",
        "remainder", "remquo", "fmod", "modf" };
    for (int i = 0; i < n; ++i)
        for (unsigned k = 0; k < sizeof(inl) / sizeof(*inl); ++k)
            if (!strncmp(call[i].f->name, inl[k], strlen(inl[k]))) rnd = 0;
    fesetround(modes[rnd]);
    for (int i = 0; i < n; ++i) {
        struct call* c = &call[i];
        errno = 0;
        feclearexcept(FE_ALL_EXCEPT);
        c->f->n(c->a, &c->want);
        c->flags = fetestexcept(FE_ALL_EXCEPT);
        bool cplx = c->f->ret == 'D' || c->f->ret == 'F' || c->f->ret == 'Z' || (c->f->name[0] == 'c' && strpbrk(c->f->args, "DFZ"));
        int e = errno;
        if (c->f->mask != NOERR) {
            int x = c->flags & c->f->mask;
            c->werr = e ? e : x & FE_INVALID ? EDOM : x ? ERANGE : 0;
            c->reports = (pend | c->raise) & c->f->mask;
        } else if (!cplx && e) c->werr = e;
        pend |= c->raise | c->flags;
        if (c->werr) { ncall = i + 1; werr = c->werr; break; }
    }
    if (fenvat >= ncall) fenvat = -1;
    fesetround(FE_TONEAREST);
    if (fenvat >= 0) pbt_trace(p, "environment saved before call %d, rounding %d at the end; ", fenvat, newrnd);
    if (fexat >= 0) pbt_trace(p, "exceptions saved at the beginning; ");
    pbt_trace(p, "rounding %d, pending exceptions %#x, errno %d%s:", rnd, pre_flags, errno0, abort_end ? ", aborting" : "");
    for (int i = 0; i < ncall; ++i) {
        describe(d, &call[i]);
        if (call[i].raise) pbt_trace(p, " raise(%#x)", call[i].raise);
        pbt_trace(p, " %s", d);
    }
    feclearexcept(FE_ALL_EXCEPT);
    if (pre_flags) feraiseexcept(pre_flags);
    int entry_flags = fetestexcept(FE_ALL_EXCEPT);
    fesetround(modes[rnd]);
    errno = errno0;
    run();
    int endrnd = fegetround();
    fesetround(FE_TONEAREST);
    describe(d, &call[at < ncall && at >= 0 ? at : ncall - 1]);
    if (endrnd != modes[fenvat >= 0 && ended == 1 ? newrnd : rnd])
        pbt_fail(p, "rounding", fenvat < 0 ? "rounding mode changed by %s_tx" : ended == 1 ? "rounding mode set in the transaction is gone after commit%.0s" : "rounding mode not restored by the roll-back%.0s", d);
    if (werr) {
        if (ended != 2) pbt_fail(p, "missed-error", "%s_tx succeeded, the C library reports errno %d or exceptions %#x", d, werr, call[ncall - 1].flags);
        if (at != ncall - 1 || rstatus != PICOTM_ERRNO || rerrno != werr)
            pbt_fail(p, "error", "call %d, %s_tx: failed with status %d errno %d, expected errno %d in call %d", at, d, rstatus, rerrno, werr, ncall - 1);
        pbt_nontrivial(p);
        pbt_label(p, "math-error");
    } else if (abort_end) {
        if (ended != 2 || rerrno != 4711) pbt_fail(p, "spurious-error", "call %d, %s_tx: failed with status %d errno %d", at, d, rstatus, rerrno);
    } else {
        if (ended != 1) pbt_fail(p, "spurious-error", "call %d, %s_tx: failed with status %d errno %d, the C library reports no error", at, d, rstatus, rerrno);
        pbt_label(p, "no-error");
    }
    for (int i = 0; i < ncall; ++i) if (call[i].reports && !call[i].werr) { pbt_nontrivial(p); pbt_label(p, "stale-exception"); }
    if (ended == 2) {
        if (memcmp((void*)&tmem, (void*)&saved, sizeof(tmem))) pbt_fail(p, "memory", "%s_tx: memory argument changed although the transaction rolled back", d);
        /* exceptions pending at the transaction's first math call are restored */
        bool saves = false;
        for (int i = 0; i < ncall; ++i) saves |= call[i].f->mask != NOERR;
        if ((fexat == 0 || (!raised_inside && (fenvat == 0 || (saves && call[0].f->mask != NOERR)))) && rflags != entry_flags)
            pbt_fail(p, "exceptions", "exceptions %#x after roll-back, %#x before the transaction", rflags, entry_flags);
    } else if (uses_mem && memcmp((void*)&tmem, (void*)&nmem, sizeof(tmem)) && memcall < ncall) {
        pbt_fail(p, "memory", "%s_tx stored something else than the C library", call[memcall].f->name);
    }
    if (uses_mem) pbt_label(p, "memory-argument");
    if (ended == 2 && (fenvat >= 0 || fexat >= 0)) { pbt_nontrivial(p); pbt_label(p, "environment-restored"); }
    feclearexcept(FE_ALL_EXCEPT);
}
