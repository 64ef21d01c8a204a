/* A01 (mode cast) and A02 (mode arith): checked casts and arithmetic against exact arithmetic. */
#include "pbt.h"
#include <errno.h>
#include <float.h>
#include <limits.h>
#include <math.h>
#include <picotm/picotm.h>
#include <picotm/picotm-module.h>
#include <picotm/picotm-arithmetic.h>
#include <picotm/picotm-arithmetic-ctypes.h>
#include <picotm/picotm-cast.h>
#include <picotm/picotm-cast-ctypes.h>

const char prop_rule[] =
    "Each case is 1-24 operations: a cast between two of the 15 C types, or add/sub/mul/div of one of "
    "them, on operands biased to zero, +-1, type limits, powers of two, quotients/differences of "
    "limits and neighbours of these (so that results fall on both sides of a limit). Integer results "
    "are compared with 128-bit arithmetic, floating-point ones with the rounded IEEE result (range "
    "error exactly if that leaves the finite range). Non-trivial: at least one operation whose result "
    "lies within 2 units (or ulps) of a limit or outside of the range, and one that succeeds.";

typedef __int128 I;
typedef long double F;
typedef struct { I i; F f; } V;

#define TYPES(X) \
    X(_Bool, _Bool, 0, 1, 0) X(char, char, CHAR_MIN, CHAR_MAX, 0) X(schar, signed char, SCHAR_MIN, SCHAR_MAX, 0) \
    X(short, short, SHRT_MIN, SHRT_MAX, 0) X(int, int, INT_MIN, INT_MAX, 0) X(long, long, LONG_MIN, LONG_MAX, 0) \
    X(llong, long long, LLONG_MIN, LLONG_MAX, 0) X(uchar, unsigned char, 0, UCHAR_MAX, 0) \
    X(ushort, unsigned short, 0, USHRT_MAX, 0) X(uint, unsigned int, 0, UINT_MAX, 0) \
    X(ulong, unsigned long, 0, ULONG_MAX, 0) X(ullong, unsigned long long, 0, ULLONG_MAX, 0)
#define FTYPES(X) X(float, float, -FLT_MAX, FLT_MAX, 1) X(double, double, -DBL_MAX, DBL_MAX, 2) \
    X(ldouble, long double, -LDBL_MAX, LDBL_MAX, 3)

static const struct { const char* name; I imin, imax; F fmin, fmax; int fp; } type[] = {
#define T(n, t, lo, hi, fp) { #n, lo, hi, lo, hi, fp },
    TYPES(T)
#undef T
#define T(n, t, lo, hi, fp) { #n, 0, 0, lo, hi, fp },
    FTYPES(T)
#undef T
};
enum { NI = 12, NT = 15 };

#define OPS(n, t) \
    static void add_ ## n(V a, V b, V* r) { GET(r) = add_ ## n ## _tx((t)GET(&a), (t)GET(&b)); } \
    static void sub_ ## n(V a, V b, V* r) { GET(r) = sub_ ## n ## _tx((t)GET(&a), (t)GET(&b)); } \
    static void mul_ ## n(V a, V b, V* r) { GET(r) = mul_ ## n ## _tx((t)GET(&a), (t)GET(&b)); } \
    static void div_ ## n(V a, V b, V* r) { GET(r) = div_ ## n ## _tx((t)GET(&a), (t)GET(&b)); }
#define GET(v) ((v)->i)
#define T(n, t, lo, hi, fp) OPS(n, t)
TYPES(T)
#undef GET
#define GET(v) ((v)->f)
FTYPES(T)
#undef T
static void (* const opfn[NT][4])(V, V, V*) = {
#define T(n, t, lo, hi, fp) { add_ ## n, sub_ ## n, mul_ ## n, div_ ## n },
    TYPES(T) FTYPES(T)
#undef T
};

/* casts: integer/float source to every destination */
#define CAST(sn, st, sg, dn, dg) \
    static void c_ ## sn ## _ ## dn(V a, V b, V* r) { r->dg = cast_ ## sn ## _to_ ## dn ## _tx((st)a.sg); }
CAST(_Bool, _Bool, i, char, i)
CAST(_Bool, _Bool, i, schar, i)
CAST(_Bool, _Bool, i, short, i)
CAST(_Bool, _Bool, i, int, i)
CAST(_Bool, _Bool, i, long, i)
CAST(_Bool, _Bool, i, llong, i)
CAST(_Bool, _Bool, i, uchar, i)
CAST(_Bool, _Bool, i, ushort, i)
CAST(_Bool, _Bool, i, uint, i)
CAST(_Bool, _Bool, i, ulong, i)
CAST(_Bool, _Bool, i, ullong, i)
CAST(_Bool, _Bool, i, float, f)
CAST(_Bool, _Bool, i, double, f)
CAST(_Bool, _Bool, i, ldouble, f)
CAST(char, char, i, _Bool, i)
CAST(char, char, i, schar, i)
CAST(char, char, i, short, i)
CAST(char, char, i, int, i)
CAST(char, char, i, long, i)
CAST(char, char, i, llong, i)
CAST(char, char, i, uchar, i)
CAST(char, char, i, ushort, i)
CAST(char, char, i, uint, i)
CAST(char, char, i, ulong, i)
CAST(char, char, i, ullong, i)
CAST(char, char, i, float, f)
CAST(char, char, i, double, f)
CAST(char, char, i, ldouble, f)
CAST(schar, signed char, i, _Bool, i)
CAST(schar, signed char, i, char, i)
CAST(schar, signed char, i, short, i)
CAST(schar, signed char, i, int, i)
CAST(schar, signed char, i, long, i)
CAST(schar, signed char, i, llong, i)
CAST(schar, signed char, i, uchar, i)
CAST(schar, signed char, i, ushort, i)
CAST(schar, signed char, i, uint, i)
CAST(schar, signed char, i, ulong, i)
CAST(schar, signed char, i, ullong, i)
CAST(schar, signed char, i, float, f)
CAST(schar, signed char, i, double, f)
CAST(schar, signed char, i, ldouble, f)
CAST(short, short, i, _Bool, i)
CAST(short, short, i, char, i)
CAST(short, short, i, schar, i)
CAST(short, short, i, int, i)
CAST(short, short, i, long, i)
CAST(short, short, i, llong, i)
CAST(short, short, i, uchar, i)
CAST(short, short, i, ushort, i)
CAST(short, short, i, uint, i)
CAST(short, short, i, ulong, i)
CAST(short, short, i, ullong, i)
CAST(short, short, i, float, f)
CAST(short, short, i, double, f)
CAST(short, short, i, ldouble, f)
CAST(int, int, i, _Bool, i)
CAST(int, int, i, char, i)
CAST(int, int, i, schar, i)
CAST(int, int, i, short, i)
CAST(int, int, i, long, i)
CAST(int, int, i, llong, i)
CAST(int, int, i, uchar, i)
CAST(int, int, i, ushort, i)
CAST(int, int, i, uint, i)
CAST(int, int, i, ulong, i)
CAST(int, int, i, ullong, i)
CAST(int, int, i, float, f)
CAST(int, int, i, double, f)
CAST(int, int, i, ldouble, f)
CAST(long, long, i, _Bool, i)
CAST(long, long, i, char, i)
CAST(long, long, i, schar, i)
CAST(long, long, i, short, i)
CAST(long, long, i, int, i)
CAST(long, long, i, llong, i)
CAST(long, long, i, uchar, i)
CAST(long, long, i, ushort, i)
CAST(long, long, i, uint, i)
CAST(long, long, i, ulong, i)
CAST(long, long, i, ullong, i)
CAST(long, long, i, float, f)
CAST(long, long, i, double, f)
CAST(long, long, i, ldouble, f)
CAST(llong, long long, i, _Bool, i)
CAST(llong, long long, i, char, i)
CAST(llong, long long, i, schar, i)
CAST(llong, long long, i, short, i)
CAST(llong, long long, i, int, i)
CAST(llong, long long, i, long, i)
CAST(llong, long long, i, uchar, i)
CAST(llong, long long, i, ushort, i)
CAST(llong, long long, i, uint, i)
CAST(llong, long long, i, ulong, i)
CAST(llong, long long, i, ullong, i)
CAST(llong, long long, i, float, f)
CAST(llong, long long, i, double, f)
CAST(llong, long long, i, ldouble, f)
CAST(uchar, unsigned char, i, _Bool, i)
CAST(uchar, unsigned char, i, char, i)
CAST(uchar, unsigned char, i, schar, i)
CAST(uchar, unsigned char, i, short, i)
CAST(uchar, unsigned char, i, int, i)
CAST(uchar, unsigned char, i, long, i)
CAST(uchar, unsigned char, i, llong, i)
CAST(uchar, unsigned char, i, ushort, i)
CAST(uchar, unsigned char, i, uint, i)
CAST(uchar, unsigned char, i, ulong, i)
CAST(uchar, unsigned char, i, ullong, i)
CAST(uchar, unsigned char, i, float, f)
CAST(uchar, unsigned char, i, double, f)
CAST(uchar, unsigned char, i, ldouble, f)
CAST(ushort, unsigned short, i, _Bool, i)
CAST(ushort, unsigned short, i, char, i)
CAST(ushort, unsigned short, i, schar, i)
CAST(ushort, unsigned short, i, short, i)
CAST(ushort, unsigned short, i, int, i)
CAST(ushort, unsigned short, i, long, i)
CAST(ushort, unsigned short, i, llong, i)
CAST(ushort, unsigned short, i, uchar, i)
CAST(ushort, unsigned short, i, uint, i)
CAST(ushort, unsigned short, i, ulong, i)
CAST(ushort, unsigned short, i, ullong, i)
CAST(ushort, unsigned short, i, float, f)
CAST(ushort, unsigned short, i, double, f)
CAST(ushort, unsigned short, i, ldouble, f)
CAST(uint, unsigned int, i, _Bool, i)
CAST(uint, unsigned int, i, char, i)
CAST(uint, unsigned int, i, schar, i)
CAST(uint, unsigned int, i, short, i)
CAST(uint, unsigned int, i, int, i)
CAST(uint, unsigned int, i, long, i)
CAST(uint, unsigned int, i, llong, i)
CAST(uint, unsigned int, i, uchar, i)
CAST(uint, unsigned int, i, ushort, i)
CAST(uint, unsigned int, i, ulong, i)
CAST(uint, unsigned int, i, ullong, i)
CAST(uint, unsigned int, i, float, f)
CAST(uint, unsigned int, i, double, f)
CAST(uint, unsigned int, i, ldouble, f)
CAST(ulong, unsigned long, i, _Bool, i)
CAST(ulong, unsigned long, i, char, i)
CAST(ulong, unsigned long, i, schar, i)
CAST(ulong, unsigned long, i, short, i)
CAST(ulong, unsigned long, i, int, i)
CAST(ulong, unsigned long, i, long, i)
CAST(ulong, unsigned long, i, llong, i)
CAST(ulong, unsigned long, i, uchar, i)
CAST(ulong, unsigned long, i, ushort, i)
CAST(ulong, unsigned long, i, uint, i)
CAST(ulong, unsigned long, i, ullong, i)
CAST(ulong, unsigned long, i, float, f)
CAST(ulong, unsigned long, i, double, f)
CAST(ulong, unsigned long, i, ldouble, f)
CAST(ullong, unsigned long long, i, _Bool, i)
CAST(ullong, unsigned long long, i, char, i)
CAST(ullong, unsigned long long, i, schar, i)
CAST(ullong, unsigned long long, i, short, i)
CAST(ullong, unsigned long long, i, int, i)
CAST(ullong, unsigned long long, i, long, i)
CAST(ullong, unsigned long long, i, llong, i)
CAST(ullong, unsigned long long, i, uchar, i)
CAST(ullong, unsigned long long, i, ushort, i)
CAST(ullong, unsigned long long, i, uint, i)
CAST(ullong, unsigned long long, i, ulong, i)
CAST(ullong, unsigned long long, i, float, f)
CAST(ullong, unsigned long long, i, double, f)
CAST(ullong, unsigned long long, i, ldouble, f)
CAST(float, float, f, double, f)
CAST(float, float, f, ldouble, f)
CAST(double, double, f, float, f)
CAST(double, double, f, ldouble, f)
CAST(ldouble, long double, f, float, f)
CAST(ldouble, long double, f, double, f)
static void (* const castfn[NT][NT])(V, V, V*) = {
    { NULL, c__Bool_char, c__Bool_schar, c__Bool_short, c__Bool_int, c__Bool_long, c__Bool_llong, c__Bool_uchar, c__Bool_ushort, c__Bool_uint, c__Bool_ulong, c__Bool_ullong, c__Bool_float, c__Bool_double, c__Bool_ldouble },
    { c_char__Bool, NULL, c_char_schar, c_char_short, c_char_int, c_char_long, c_char_llong, c_char_uchar, c_char_ushort, c_char_uint, c_char_ulong, c_char_ullong, c_char_float, c_char_double, c_char_ldouble },
    { c_schar__Bool, c_schar_char, NULL, c_schar_short, c_schar_int, c_schar_long, c_schar_llong, c_schar_uchar, c_schar_ushort, c_schar_uint, c_schar_ulong, c_schar_ullong, c_schar_float, c_schar_double, c_schar_ldouble },
    { c_short__Bool, c_short_char, c_short_schar, NULL, c_short_int, c_short_long, c_short_llong, c_short_uchar, c_short_ushort, c_short_uint, c_short_ulong, c_short_ullong, c_short_float, c_short_double, c_short_ldouble },
    { c_int__Bool, c_int_char, c_int_schar, c_int_short, NULL, c_int_long, c_int_llong, c_int_uchar, c_int_ushort, c_int_uint, c_int_ulong, c_int_ullong, c_int_float, c_int_double, c_int_ldouble },
    { c_long__Bool, c_long_char, c_long_schar, c_long_short, c_long_int, NULL, c_long_llong, c_long_uchar, c_long_ushort, c_long_uint, c_long_ulong, c_long_ullong, c_long_float, c_long_double, c_long_ldouble },
    { c_llong__Bool, c_llong_char, c_llong_schar, c_llong_short, c_llong_int, c_llong_long, NULL, c_llong_uchar, c_llong_ushort, c_llong_uint, c_llong_ulong, c_llong_ullong, c_llong_float, c_llong_double, c_llong_ldouble },
    { c_uchar__Bool, c_uchar_char, c_uchar_schar, c_uchar_short, c_uchar_int, c_uchar_long, c_uchar_llong, NULL, c_uchar_ushort, c_uchar_uint, c_uchar_ulong, c_uchar_ullong, c_uchar_float, c_uchar_double, c_uchar_ldouble },
    { c_ushort__Bool, c_ushort_char, c_ushort_schar, c_ushort_short, c_ushort_int, c_ushort_long, c_ushort_llong, c_ushort_uchar, NULL, c_ushort_uint, c_ushort_ulong, c_ushort_ullong, c_ushort_float, c_ushort_double, c_ushort_ldouble },
    { c_uint__Bool, c_uint_char, c_uint_schar, c_uint_short, c_uint_int, c_uint_long, c_uint_llong, c_uint_uchar, c_uint_ushort, NULL, c_uint_ulong, c_uint_ullong, c_uint_float, c_uint_double, c_uint_ldouble },
    { c_ulong__Bool, c_ulong_char, c_ulong_schar, c_ulong_short, c_ulong_int, c_ulong_long, c_ulong_llong, c_ulong_uchar, c_ulong_ushort, c_ulong_uint, NULL, c_ulong_ullong, c_ulong_float, c_ulong_double, c_ulong_ldouble },
    { c_ullong__Bool, c_ullong_char, c_ullong_schar, c_ullong_short, c_ullong_int, c_ullong_long, c_ullong_llong, c_ullong_uchar, c_ullong_ushort, c_ullong_uint, c_ullong_ulong, NULL, c_ullong_float, c_ullong_double, c_ullong_ldouble },
    { NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, c_float_double, c_float_ldouble },
    { NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, c_double_float, NULL, c_double_ldouble },
    { NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, c_ldouble_float, c_ldouble_double, NULL },
};

static struct pbt* P;
static volatile int ok, status, err;
static V res, av, bv;

static void run(void (*fn)(V, V, V*), V a, V b)
{
    ok = 0; status = -1; err = -1;
    av = a; bv = b;
    picotm_begin
        fn(av, bv, &res);
        ok = 1;
    picotm_commit
        ok = 0;
        status = picotm_error_status();
        err = status == PICOTM_ERRNO ? picotm_error_as_errno() : 0;
    picotm_end
}

static F fround_t(F v, int fp) { return fp == 1 ? (F)(float)v : fp == 2 ? (F)(double)v : v; }
static F fnext(F v, F to, int fp)
{
    return fp == 1 ? (F)nextafterf((float)v, (float)to) : fp == 2 ? (F)nextafter((double)v, (double)to) : nextafterl(v, to);
}

static I iclamp(I v, int t) { return v < type[t].imin ? type[t].imin : v > type[t].imax ? type[t].imax : v; }

static I gen_int(struct pbt* p, int t, const I* other)
{
    I lo = type[t].imin, hi = type[t].imax, v = 0;
    switch (PBT_W(p, 3, 3, 2, 2, other ? 5 : 0)) {
    case 0: v = (I)pbt_range(p, 0, 12) - (lo ? 6 : 0); break;
    case 1: v = pbt_chance(p, 1, 2) ? hi - (I)pbt_draw(p, 4) : lo + (I)pbt_draw(p, 4); break;
    case 2: v = ((I)1 << pbt_draw(p, 64)) + pbt_range(p, -1, 1); if (pbt_chance(p, 1, 2)) v = -v; break;
    case 3: v = lo + (I)((unsigned __int128)pbt_draw(p, 0) % ((unsigned __int128)(hi - lo) + 1)); break;
    case 4: {
        I lim = pbt_chance(p, 1, 2) ? hi : lo, o = *other;
        switch (pbt_draw(p, 4)) {
        case 0: v = lim - o; break;
        case 1: v = o - lim; break;
        case 2: v = o ? lim / o : 0; break;
        default: v = lim + o; break;
        }
        v += pbt_range(p, 0, 4) - 2;
        break;
    }
    }
    return iclamp(v, t);
}

static F gen_flt(struct pbt* p, int t, const F* other)
{
    int fp = type[t].fp;
    F v = 0, max = type[t].fmax;
    switch (PBT_W(p, 3, 3, 2, 3, other ? 6 : 0, 1, 1)) {
    case 6: v = (max - fnext(max, 0, fp)) * (F)pbt_range(p, 0, 16) / 4; break;
    case 0: v = (F)pbt_range(p, -4, 4) / (F)(1 << pbt_draw(p, 3)); break;
    case 1: v = pbt_chance(p, 1, 2) ? max : -max; break;
    case 2: v = ldexpl(1, pbt_range(p, 0, fp == 1 ? 276 : fp == 2 ? 2097 : 32828) - (fp == 1 ? 149 : fp == 2 ? 1074 : 16445)); break;
    case 3: v = (F)(int64_t)pbt_draw(p, 0) / (F)((uint64_t)1 << pbt_draw(p, 63)); break;
    case 4: {
        F lim = pbt_chance(p, 1, 2) ? max : -max, o = *other;
        switch (pbt_draw(p, 4)) {
        case 0: v = lim - o; break;
        case 1: v = o - lim; break;
        case 2: v = o != 0 ? lim / o : 1; break;
        default: v = o != 0 ? lim * o : 1; break;
        }
        break;
    }
    case 5: {
        static const F sp[] = { 0.0L, -0.0L, INFINITY, -INFINITY, NAN };
        return sp[pbt_draw(p, 5)];
    }
    }
    if (pbt_chance(p, 1, 4)) v = -v;
    v = fround_t(v, fp);
    for (int n = pbt_draw(p, 4); n; --n) v = fnext(v, pbt_chance(p, 1, 2) ? INFINITY : -INFINITY, fp);
    if (isinf(v)) v = v > 0 ? max : -max;
    return v;
}

static const char* show(const V* v, bool fp)
{
    static char b[4][64];
    static int n;
    char* s = b[n++ & 3];
    if (fp) snprintf(s, 64, "%La(%Lg)", v->f, v->f);
    else if (v->i < 0) snprintf(s, 64, "%lld", (long long)v->i);
    else snprintf(s, 64, "%llu", (unsigned long long)v->i);
    return s;
}

static bool feq(F a, F b) { return (isnan(a) && isnan(b)) || (a == b); }

static void outcome(const char* what, V a, V b, bool sfp, bool dfp, int want_err, const V* want)
{
    if (want_err) {
        if (ok) pbt_fail(P, "missed", "%s(%s, %s) returned %s instead of failing with errno %d", what, show(&a, sfp),
                         show(&b, sfp), show(&res, dfp), want_err);
        if (status != PICOTM_ERRNO || err != want_err)
            pbt_fail(P, "error", "%s(%s, %s) failed with status %d errno %d, not errno %d", what, show(&a, sfp),
                     show(&b, sfp), status, err, want_err);
        return;
    }
    if (!ok) pbt_fail(P, "spurious", "%s(%s, %s) failed with status %d errno %d, result is %s", what, show(&a, sfp),
                      show(&b, sfp), status, err, show(want, dfp));
    if (dfp ? !feq(res.f, want->f) : res.i != want->i)
        pbt_fail(P, "result", "%s(%s, %s) returned %s, result is %s", what, show(&a, sfp), show(&b, sfp),
                 show(&res, dfp), show(want, dfp));
}

static bool near_i(I v, int t)
{
    I lo = type[t].imin, hi = type[t].imax;
    return v <= lo + 2 * (lo != 0) - (lo == 0) || v >= hi - 2;
}

static bool arith_case(struct pbt* p)
{
    static const char* const on[] = { "add", "sub", "mul", "div" };
    int t = pbt_draw(p, NT), o = pbt_draw(p, 4);
    int fp = type[t].fp;
    V a = { 0 }, b = { 0 }, want = { 0 };
    char what[32];
    snprintf(what, sizeof(what), "%s_%s_tx", on[o], type[t].name);
    int werr = 0;
    bool near = false;
    if (!fp) {
        a.i = gen_int(p, t, NULL);
        b.i = gen_int(p, t, &a.i);
        if (pbt_chance(p, 1, 2)) { I x = a.i; a.i = b.i; b.i = x; }
        pbt_trace(p, "%s(%s, %s)\n", what, show(&a, false), show(&b, false));
        if (o == 3 && !b.i) werr = EDOM;
        else {
            bool big = o == 2 && a.i && (a.i * b.i) / a.i != b.i;   /* cannot happen within 65x65 bits */
            want.i = o == 0 ? a.i + b.i : o == 1 ? a.i - b.i : o == 2 ? a.i * b.i : a.i / b.i;
            /* truth-value types: the only in-range results are 0 and 1 anyway */
            if (big || want.i < type[t].imin || want.i > type[t].imax) werr = ERANGE;
            near = werr || near_i(want.i, t);
        }
        run(opfn[t][o], a, b);
        outcome(what, a, b, false, false, werr, &want);
    } else {
        a.f = gen_flt(p, t, NULL);
        b.f = gen_flt(p, t, &a.f);
        if (pbt_chance(p, 1, 2)) { F x = a.f; a.f = b.f; b.f = x; }
        pbt_trace(p, "%s(%s, %s)\n", what, show(&a, true), show(&b, true));
        volatile F r;
#define R(T) do { volatile T x = a.f, y = b.f, z; z = o == 0 ? x + y : o == 1 ? x - y : o == 2 ? x * y : x / y; r = z; } while (0)
        if (fp == 1) R(float); else if (fp == 2) R(double); else R(long double);
        want.f = r;
        run(opfn[t][o], a, b);
        if (!isfinite(a.f) || !isfinite(b.f)) {
            /* no range to be in: either the IEEE result or an error */
            if (ok && !feq(res.f, want.f) && !(o == 2 && (a.f == 0 || b.f == 0) && res.f == 0))
                outcome(what, a, b, true, true, 0, &want);
        } else {
            if (o == 3 && b.f == 0) werr = EDOM;
            else if (isinf(want.f)) werr = ERANGE;
            /* the exact result may lie beyond the largest finite value it is rounded to */
            if (!werr && fabsl(want.f) == type[t].fmax && !ok && status == PICOTM_ERRNO && err == ERANGE) return true;
            near = werr || fabsl(want.f) >= fnext(fnext(type[t].fmax, 0, fp), 0, fp);
            outcome(what, a, b, true, true, werr, &want);
        }
    }
    pbt_label(p, werr ? "range-or-domain-error" : "in-range");
    return near;
}

static bool cast_case(struct pbt* p)
{
    int s = pbt_draw(p, NT), d;
    do d = pbt_draw(p, NT); while (!castfn[s][d] && 0);
    if (!castfn[s][d]) d = castfn[s][NT - 1] ? NT - 1 : s;
    if (!castfn[s][d]) return false;
    V a = { 0 }, b = { 0 }, want = { 0 };
    char what[48];
    snprintf(what, sizeof(what), "cast_%s_to_%s_tx", type[s].name, type[d].name);
    bool sfp = type[s].fp, dfp = type[d].fp;
    int werr = 0;
    bool near;
    if (!sfp) {
        I lim = dfp ? 0 : pbt_chance(p, 1, 2) ? type[d].imax : type[d].imin;
        lim = iclamp(lim, s);
        if (pbt_chance(p, 1, 2)) a.i = iclamp(lim + pbt_range(p, 0, 4) - 2, s);
        else a.i = gen_int(p, s, &lim);
    } else {
        /* floating-point source: only floating-point destinations exist */
        F m = type[d].fmax;
        if (m > type[s].fmax) m = type[s].fmax;
        if (pbt_chance(p, 1, 2)) {
            a.f = pbt_chance(p, 1, 2) ? m : -m;
            F to = pbt_chance(p, 1, 2) ? INFINITY : -INFINITY;
            for (int n = pbt_draw(p, 4); n; --n) { F x = fnext(a.f, to, type[s].fp); if (isfinite(x)) a.f = x; }
        } else a.f = gen_flt(p, s, &m);
    }
    pbt_trace(p, "%s(%s)\n", what, show(&a, sfp));
    run(castfn[s][d], a, b);
    if (!sfp && !dfp) {
        want.i = a.i;
        if (a.i < type[d].imin || a.i > type[d].imax) werr = ERANGE;
        near = werr || near_i(a.i, d);
    } else if (!sfp) {
        want.f = type[d].fp == 1 ? (F)(a.i < 0 ? (float)(long long)a.i : (float)(unsigned long long)a.i)
               : type[d].fp == 2 ? (F)(a.i < 0 ? (double)(long long)a.i : (double)(unsigned long long)a.i) : (F)a.i;
        near = near_i(a.i, s);
    } else {
        if (!isfinite(a.f)) {
            want = a;
            if (ok && !feq(res.f, a.f)) outcome(what, a, b, true, true, 0, &want);
            pbt_label(p, "non-finite");
            return false;
        }
        want.f = fround_t(a.f, type[d].fp);
        if (a.f > type[d].fmax || a.f < -type[d].fmax) werr = ERANGE;
        near = werr || fabsl(a.f) >= fnext(type[d].fmax, 0, type[d].fp);
    }
    outcome(what, a, b, sfp, dfp, werr, &want);
    pbt_label(p, werr ? "range-error" : "in-range");
    return near;
}

void prop_case(struct pbt* p)
{
    P = p;
    int n = 1 + pbt_len(p, 23);
    bool near = false, good = false;
    for (int i = 0; i < n; ++i) {
        near |= strcmp(pbt_mode, "cast") ? arith_case(p) : cast_case(p);
        good |= ok;
    }
    if (near && good) pbt_nontrivial(p);
}
