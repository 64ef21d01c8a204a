/* S02: formatted printing and scanning, time formatting and parsing, against the C library on a shadow. */
#include "pbt.h"
#include <sys/mman.h>
#include <errno.h>
#include <locale.h>
#include <stdarg.h>
#include <time.h>
#include <wchar.h>
#include <math.h>
#include <picotm/picotm-tm.h>
#include <picotm/string.h>
#include <picotm/stdio.h>
#include <picotm/time.h>

const char prop_rule[] =
    "Formats of up to 6 conversions (all conversions, flags, widths, precisions incl. *, length modifiers, "
    "literal text, %n, unterminated strings bounded by a precision, (null), wide strings, rare malformed "
    "conversions) with generated arguments through snprintf/vsnprintf, sscanf/vsscanf, strftime(_l) and "
    "strptime, 1-8 calls per attempt in 1-4 transactions that end in commit or any roll-back. Destinations, string arguments, inputs and formats are "
    "transactional memory that ends at an inaccessible page. Oracle: the C library function called with the "
    "same arguments on a shadow arena: result, all arena bytes, struct tm fields, errors; roll-back restores all. "
    "Non-trivial: at least 3 conversions performed in total and at least one call that stores something.";

enum { N = 256, SLOT = 96, ATT_MAXOPS = 8, MAXSPEC = 6, FN = 160 };
struct spec { unsigned conv, flags, width, prec, len, off, lit; uint64_t iv; double dv; };
struct aop { int k; unsigned a, n, x, ns; struct spec s[MAXSPEC]; unsigned char v[24]; int tmf[9]; };
#include "att.h"

static char* A; static char* S; static char com[N], buf[N];
static char* F;
static struct tm* tA; static struct tm tS, tcom;
static locale_t loc[2];
static int convs, stores;
#define T(...) pbt_trace(P, __VA_ARGS__)

static char* guarded(size_t n)
{
    char* m = mmap(NULL, 3 * 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(m + 4096, 4096, PROT_READ | PROT_WRITE);
    return m + 2 * 4096 - n;
}

void prop_init(void)
{
    A = guarded(N); S = guarded(N); F = guarded(FN); tA = (struct tm*)guarded(sizeof(struct tm));

    loc[0] = newlocale(LC_ALL_MASK, "C", 0);
    loc[1] = newlocale(LC_ALL_MASK, "C.UTF-8", 0);
    if (!loc[1]) loc[1] = loc[0];
    setenv("TZ", "CET-1CEST,M3.5.0,M10.5.0/3", 1);
    tzset();
}

/* argument lists for v*printf/v*scanf: everything in the overflow area (x86-64 ABI) */
struct args { uint64_t a[64] __attribute__((aligned(16))); int n; };
static void arg_u64(struct args* g, uint64_t v) { g->a[g->n++] = v; }
static void arg_dbl(struct args* g, double d) { memcpy(&g->a[g->n++], &d, 8); }
static void arg_ldbl(struct args* g, long double d) { g->n += g->n & 1; memset(&g->a[g->n], 0, 16); memcpy(&g->a[g->n], &d, 10); g->n += 2; }
static void mk_va(va_list ap, struct args* g)
{
    ap[0].gp_offset = 48; ap[0].fp_offset = 176;
    ap[0].overflow_arg_area = g->a; ap[0].reg_save_area = NULL;
}

static bool used[N];
static bool take(unsigned o, unsigned n)
{
    if (o + n > N) return false;
    for (unsigned i = o; i < o + n; ++i) if (used[i]) return false;
    memset(used + o, 1, n);
    return true;
}
static bool freerange(unsigned o, unsigned n)
{
    if (o + n > N) return false;
    for (unsigned i = o; i < o + n; ++i) if (used[i]) return false;
    return true;
}

static char fm[FN]; static unsigned fl;
static void put(const char* s) { size_t n = strlen(s); if (fl + n < FN) { memcpy(fm + fl, s, n + 1); fl += n; } }
static void putf(unsigned v) { char b[16]; sprintf(b, "%u", v); put(b); }
static const char* const lenmod[] = { "", "hh", "h", "l", "ll", "j", "z", "t", "L" };
static unsigned intsize(unsigned len) { static const unsigned z[] = { 4, 1, 2, 8, 8, 8, 8, 8, 0 }; return z[len]; }
static const char* const lits[] = { "", " ", "x", "ab", "%%", ": ", "-", "\t\n", "%% 5" };

static void write_arena(unsigned o, const void* d, unsigned n) { memcpy(S + o, d, n); store_tx(A + o, d, n); }

static bool isstr(unsigned o) { return memchr(S + o, 0, N - o); }
/* offset of a wide string within the slots, terminated; 0 if none */
static bool iswstr(unsigned o)
{
    for (; o + 4 <= N; o += 4) { wchar_t c; memcpy(&c, S + o, 4); if (!c) return true; }
    return false;
}

/* --- printf ------------------------------------------------------------ */
/* builds the format and both argument lists; returns false if the C function's behaviour would be undefined */
static bool bad; static long ivals[32]; static int nints; static double dvals[8]; static int ndbls;
static void both(struct args* ga, struct args* gs, uint64_t v) { arg_u64(ga, v); arg_u64(gs, v); }

static bool mk_printf(struct aop* o, unsigned a, unsigned n, struct args* ga, struct args* gs)
{
    fl = 0; fm[0] = 0; bad = false;
    memset(used, 0, sizeof used);
    if (!take(a, n)) return false;
    memset(ga, 0, sizeof *ga); memset(gs, 0, sizeof *gs);
    for (unsigned k = 0; k < o->ns; ++k) {
        struct spec* s = &o->s[k];
        static const char conv[] = "dioxXuceEfFgGaAspn%mSZ";
        char c = conv[s->conv];
        put(lits[s->lit]);
        char cs[2] = { c, 0 };
        if (c == 'Z') {                     /* malformed: must be refused */
            put(k % 2 ? "%3k" : "%"); bad = true; k = o->ns; continue;
        }
        unsigned len = s->len;
        if (c == 'S' || strchr("pm%", c)) len = 0;
        if (c == 'c' || c == 's') len = len == 3 ? 3 : 0;
        if (strchr("eEfFgGaA", c)) len = len == 8 ? 8 : len == 3 ? 3 : 0;
        else if (len == 8) len = 0;
        put("%");
        if (c == '%') { put("%"); continue; }
        if (c != 'n') {
            if (s->flags & 1) put("-");
            if (s->flags & 2 && c != 'S') put("+");
            if (s->flags & 4) put(" ");
            if (s->flags & 8 && strchr("oxXeEfFgGaA", c)) put("#");
            if (s->flags & 16 && strchr("dioxXueEfFgGaA", c)) put("0");
            if (s->flags & 32 && strchr("diufFgG", c)) put("'");
            if (s->width == 63) { put("*"); both(ga, gs, (unsigned)(int)((int)(s->iv % 80) - 40)); }
            else if (s->width > 40) putf(s->width - 40);
        }
        bool hasprec = false; unsigned prec = 0;
        if (c != 'n' && c != 'c' && c != 'p' && c != 'm' && s->prec > 30) {
            put("."); hasprec = true;
            if (s->prec == 63) { prec = s->iv / 80 % 40; put("*"); both(ga, gs, prec); }
            else if (s->prec == 62) { hasprec = false; put("*"); both(ga, gs, (uint32_t)-7); }
            else if (s->prec == 61) ;       /* "." alone is a precision of 0 */
            else { prec = s->prec - 31; putf(prec); }
        }
        if (c == 'S') { c = 's'; cs[0] = 's'; s->off = N; }
        put(lenmod[len]); put(cs);
        switch (c) {
        case 'd': case 'i': case 'o': case 'x': case 'X': case 'u': both(ga, gs, s->iv); break;
        case 'c': both(ga, gs, len == 3 ? s->iv % (s->iv & 64 ? 0x3000 : 128) : (unsigned char)s->iv); break;
        case 'p': both(ga, gs, s->iv); break;
        case 'm': break;
        case 's':
            if (s->off >= N) { both(ga, gs, 0); break; }
            if (len == 3) {
                unsigned q = s->off & ~3u;
                if (!iswstr(q)) return false;
                unsigned e = q;
                for (;; e += 4) { wchar_t w; memcpy(&w, S + e, 4); if (!w) break; }
                if (!freerange(q, e + 4 - q)) return false;
                arg_u64(ga, (uintptr_t)(A + q)); arg_u64(gs, (uintptr_t)(S + q));
            } else {
                unsigned have = isstr(s->off) ? strlen(S + s->off) + 1 : N - s->off + 1;
                if (have > N - s->off && !(hasprec && prec <= N - s->off)) return false;
                if (hasprec && prec < have) have = prec;
                if (!freerange(s->off, have)) return false;
                arg_u64(ga, (uintptr_t)(A + s->off)); arg_u64(gs, (uintptr_t)(S + s->off));
            }
            break;
        case 'n': {
            unsigned sz = intsize(len), q = s->off % SLOT / sz * sz;
            if (!take(q, sz)) return false;
            arg_u64(ga, (uintptr_t)(A + q)); arg_u64(gs, (uintptr_t)(S + q));
            break;
        }
        default:
            if (len == 8) { arg_ldbl(ga, s->dv * 1.25L); arg_ldbl(gs, s->dv * 1.25L); }
            else { arg_dbl(ga, s->dv); arg_dbl(gs, s->dv); }
        }
        ++convs;
    }
    return true;
}

/* strings that overlap a later %n destination: check again at the end */
static bool strings_free(struct aop* o, struct args* gs)
{
    (void)o; (void)gs;
    return true;
}

/* formats live in transactional memory that ends at the guard page */
static char* put_format(void)
{
    char* f = F + FN - fl - 1;
    store_tx(f, fm, fl + 1);
    return f;
}

static int sn_plain(char* (*mk)(void), char* s, unsigned n, uint64_t* g)
{
    char* f = mk();
    return snprintf_tx(s, n, f, g[0], g[1], g[2], g[3], g[4], g[5], g[6], g[7], g[8], g[9], g[10], g[11], g[12], g[13], g[14], g[15], g[16], g[17], g[18], g[19]);
}

static void op_printf(struct aop* o)
{
    unsigned a = o->a % (N + 1), n = o->n;
    if (n > N - a) n = N - a;
    static struct args ga, gs;
    if (!mk_printf(o, a, n, &ga, &gs)) return;
    strings_free(o, &gs);
    bool floats = strpbrk(fm, "eEfFgGaA") != NULL;
    bool nul = !n && o->x % 2;
    T("%s(%d,%u,\"%s\") ", o->x % 3 || floats ? "vsnprintf" : "snprintf", nul ? -1 : (int)a, n, fm);
    if (n) ++stores;
    int want = 0;
    if (!bad) {
        va_list ap; mk_va(ap, &gs);
        errno = 0;
        want = vsnprintf(nul ? NULL : S + a, n, fm, ap);
        if (want < 0) att_expect(PICOTM_ERRNO, errno);
    } else
        att_expect(PICOTM_ERRNO, EINVAL);
    errno = 0;
    int got;
    if (o->x % 3 == 0 && !floats)
        got = sn_plain(put_format, nul ? NULL : A + a, n, ga.a);
    else {
        char* f = put_format();
        va_list ap; mk_va(ap, &ga);
        got = vsnprintf_tx(nul ? NULL : A + a, n, f, ap);
    }
    if (att_exp_status == -1 && got != want) pbt_fail(P, "printf-result", "attempt %d: snprintf gives %d, the C library %d", att_cur, got, want);
}

/* --- scanf --------------------------------------------------------------- */
static char in[FN]; static unsigned il;
static void inp(const char* s) { size_t n = strlen(s); if (il + n < FN) { memcpy(in + il, s, n + 1); il += n; } }
static const char* const words[] = { "abc", "a", "xyz9", "12", "-", "\xc3\xa9t", "]b", "nan", "0x1p3", "" };
static const char* const sets[] = { "abc", "^ ", "]b", "^]", "a-z", "0-9x", "]%d", "^]%%" };

static int sc_plain(const char* s, const char* f, uint64_t* g)
{
    return sscanf_tx(s, f, g[0], g[1], g[2], g[3], g[4], g[5], g[6], g[7]);
}

static void op_scanf(struct aop* o)
{
    static struct args ga, gs;
    fl = il = 0; fm[0] = in[0] = 0; bad = false;
    memset(used, 0, sizeof used);
    memset(&ga, 0, sizeof ga); memset(&gs, 0, sizeof gs);
    /* the input first: its text decides where it may be */
    for (unsigned k = 0; k < o->ns; ++k) {
        struct spec* s = &o->s[k];
        char b[64];
        if (s->flags & 1) inp(" ");
        switch (s->conv % 5) {
        case 0: sprintf(b, "%ld", (long)s->iv); inp(b); break;
        case 1: sprintf(b, s->flags & 2 ? "%#lx" : "%g", s->flags & 2 ? s->iv : 0, s->dv); if (!(s->flags & 2)) sprintf(b, "%g", s->dv); inp(b); break;
        case 2: inp(words[s->iv % 10]); break;
        case 3: sprintf(b, "%d", (int)(s->iv % 300) - 100); inp(b); break;
        case 4: inp(words[s->iv % 10]); inp(words[s->iv / 16 % 10]); break;
        }
    }
    if (o->x % 8 == 0) in[0] = 0, il = 0;
    unsigned ia = o->a % 3 ? N - il - 1 : SLOT + o->n % 32;
    if (ia + il + 1 > N) return;
    take(ia, il + 1);
    for (unsigned k = 0; k < o->ns; ++k) {
        struct spec* s = &o->s[k];
        static const char conv[] = "dioxXuefgac[sn%pZdS";
        char c = conv[s->conv % 19];
        static const unsigned want[] = { 0, 1, 0, 3, 2 };
        (void)want;
        put(lits[s->lit % 4 == 1 ? 1 : s->lit % 4 ? 0 : s->lit]);
        if (c == 'Z') { if (s->flags & 15) { put("%%"); continue; } put(k % 2 ? "%s" : "%[a-z"); bad = true; break; }
        if (c == 'S') { put("%5"); put("k"); bad = true; break; }
        unsigned len = s->len;
        bool sup = s->flags & 32 && c != 'n';
        if (strchr("efga", c)) len = len == 8 ? 8 : len == 3 ? 3 : 0;
        else if (len == 8 || strchr("cs[p%", c)) len = len == 3 && c != 'p' && c != '%' ? 3 : 0;
        unsigned width = s->width > 30 ? s->width - 30 : 0;
        if (c == '%' || c == 'n') width = 0;
        if (!width && (c == 's' || c == '[') && !sup) width = 3;
        unsigned size;
        switch (c) {
        case '%': put("%%"); continue;
        case 'c': size = (width ? width : 1) * (len == 3 ? 4 : 1); break;
        case 's': case '[': size = (width + 1) * (len == 3 ? 4 : 1); break;
        case 'p': size = 8; break;
        case 'e': case 'f': case 'g': case 'a': size = len == 8 ? 16 : len == 3 ? 8 : 4; break;
        default: size = intsize(len);
        }
        unsigned q = 0;
        if (!sup) {
            unsigned al = c == 'c' || c == 's' || c == '[' ? (len == 3 ? 4 : 1) : size;
            q = (c == 'c' || c == 's' || c == '[' ? s->off : s->off % SLOT) / al * al;
            if (s->off % 7 == 0 && N % al == 0 && size <= N) q = (N - size) / al * al;
            if (!take(q, size)) { sup = c != 'n'; if (c == 'n') continue; }
        }
        put("%");
        if (sup) put("*");
        if (width) putf(width);
        put(lenmod[len]);
        char cs[2] = { c, 0 };
        put(cs);
        if (c == '[') { put(sets[s->iv % 8]); put("]"); }
        if (!sup) { arg_u64(&ga, (uintptr_t)(A + q)); arg_u64(&gs, (uintptr_t)(S + q)); ++stores; }
        ++convs;
    }
    write_arena(ia, in, il + 1);
    bool plain = o->x % 3 == 0;
    T("%s(%u,\"%s\",\"%s\") ", plain ? "sscanf" : "vsscanf", ia, in, fm);
    int want = 0;
    if (bad) att_expect(PICOTM_ERRNO, EINVAL);
    else {
        va_list ap; mk_va(ap, &gs);
        errno = 0;
        want = vsscanf(S + ia, fm, ap);
        if (want < 0 && errno) att_expect(PICOTM_ERRNO, errno);
    }
    char* f = put_format();
    int got;
    if (plain) got = sc_plain(A + ia, f, ga.a);
    else { va_list ap; mk_va(ap, &ga); got = vsscanf_tx(A + ia, f, ap); }
    if (att_exp_status == -1 && got != want) pbt_fail(P, "scanf-result", "attempt %d: sscanf gives %d, the C library %d", att_cur, got, want);
}

/* --- time ------------------------------------------------------------------ */
static const char tconv[] = "aAbBcCdDeFgGhHIjklmMnpPrRsStTuUVwWxXyYzZ%";
static const char* const tz[] = { "UTC", "XYZ", "" };

static void mk_tfmt(struct aop* o, bool parse)
{
    fl = 0; fm[0] = 0;
    for (unsigned k = 0; k < o->ns; ++k) {
        struct spec* s = &o->s[k];
        put(lits[s->lit]); put("%");
        if (!parse && s->flags % 8 == 1) put("_"); else if (!parse && s->flags % 8 == 2) put("-"); else if (!parse && s->flags % 8 == 3) put("0"); else if (!parse && s->flags % 8 == 4) put("^");
        if (!parse && s->width > 50) putf(s->width - 50);
        char c = tconv[s->iv % (sizeof tconv - 1)];
        if (s->len == 1 && strchr("cCxXyY", c)) put("E");
        if (s->len == 2 && strchr("deHImMSuUVwWy", c)) put("O");
        char cs[2] = { c, 0 }; put(cs);
        ++convs;
    }
}

static void op_tmset(struct aop* o)
{
    struct tm t;
    memset(&t, 0, sizeof t);
    t.tm_sec = o->tmf[0]; t.tm_min = o->tmf[1]; t.tm_hour = o->tmf[2]; t.tm_mday = o->tmf[3]; t.tm_mon = o->tmf[4];
    t.tm_year = o->tmf[5]; t.tm_wday = o->tmf[6]; t.tm_yday = o->tmf[7]; t.tm_isdst = o->tmf[8];
    t.tm_gmtoff = o->tmf[8] > 0 ? 7200 : 3600; t.tm_zone = tz[o->x % 3];
    T("tm{%d %d %d %d %d %d %d %d %d} ", t.tm_sec, t.tm_min, t.tm_hour, t.tm_mday, t.tm_mon, t.tm_year, t.tm_wday, t.tm_yday, t.tm_isdst);
    tS = t;
    if (o->x % 4) store_struct_tm_tx(tA, t);
    else { privatize_struct_tm_tx(tA, PICOTM_TM_PRIVATIZE_STORE); *tA = t; }
}

static void op_strftime(struct aop* o)
{
    unsigned a = o->a % (N + 1), n = o->n;
    if (n > N - a) n = N - a;
    mk_tfmt(o, false);
    if (n) ++stores;
    size_t want, got;
    T("strftime%s(%u,%u,\"%s\") ", o->x % 2 ? "_l" : "", a, n, fm);
    locale_t l = loc[o->x / 2 % 2];
    if (o->x % 2) { want = strftime_l(S + a, n, fm, &tS, l); char* f = put_format(); got = strftime_l_tx(A + a, n, f, tA, l); }
    else { want = strftime(S + a, n, fm, &tS); char* f = put_format(); got = strftime_tx(A + a, n, f, tA); }
    if (got != want) pbt_fail(P, "strftime-result", "attempt %d: strftime gives %zu, the C library %zu", att_cur, got, want);
}

static void op_strptime(struct aop* o)
{
    char t[FN];
    mk_tfmt(o, true);
    size_t n = 0;
    struct tm x = tS;
    x.tm_sec = o->tmf[0]; x.tm_min = o->tmf[1]; x.tm_hour = o->tmf[2]; x.tm_mday = o->tmf[3]; x.tm_mon = o->tmf[4]; x.tm_year = o->tmf[5];
    n = strftime(t, sizeof t, fm, &x);
    t[n] = 0;
    if (o->x % 5 == 0 && n) t[o->n % n] = o->v[0] % 96 + 32;
    if (o->x % 7 == 0 && n) t[o->n % n] = 0, n = strlen(t);
    if (n + 1 > N) return;
    unsigned ia = o->a % 2 ? N - n - 1 : o->a % (N - n);
    write_arena(ia, t, n + 1);
    ++stores;
    T("strptime(%u,\"%s\",\"%s\") ", ia, t, fm);
    char* w = strptime(S + ia, fm, &tS);
    char* f = put_format();
    char* g = strptime_tx(A + ia, f, tA);
    long wo = w ? w - S : -1, go = g ? g - A : -1;
    if (go != wo) pbt_fail(P, "strptime-result", "attempt %d: strptime gives %ld, the C library %ld", att_cur, go, wo);
}

static void fill(struct aop* o)             /* direct stores: strings, wide strings, raw bytes */
{
    unsigned a = o->a % N, n = o->n % 25;
    char b[28];
    memset(b, 0, sizeof b);
    switch (o->x % 4) {
    case 0: case 1: memcpy(b, o->v, n); b[n] = 0; ++n; break;
    case 2: { a &= ~3u; n = o->n % 6; for (unsigned i = 0; i < n; ++i) { wchar_t w = o->v[i] > 230 ? 0x20ac + o->v[i] : o->v[i] % 128; memcpy(b + 4 * i, &w, 4); } n = 4 * n + 4; break; }
    case 3: memcpy(b, o->v, n > 24 ? n = 24 : n); break;
    }
    if (a + n > N) n = N - a;
    T("store(%u,%u) ", a, n);
    write_arena(a, b, n);
}

static void att_op(struct aop* o)
{
    switch (o->k) {
    case 0: fill(o); break;
    case 1: op_printf(o); break;
    case 2: op_scanf(o); break;
    case 3: op_tmset(o); break;
    case 4: op_strftime(o); break;
    case 5: op_strptime(o); break;
    }
}

static void arena(const char* when, const char* got, const char* want)
{
    for (int i = 0; i < N; ++i)
        if (got[i] != want[i])
            pbt_fail(P, "contents", "attempt %d: %s: byte %d of the arena is %d, expected %d", att_cur, when, i, (unsigned char)got[i], (unsigned char)want[i]);
}
static void timechk(const char* when, const struct tm* g, const struct tm* w)
{
    if (g->tm_sec != w->tm_sec || g->tm_min != w->tm_min || g->tm_hour != w->tm_hour || g->tm_mday != w->tm_mday || g->tm_mon != w->tm_mon ||
        g->tm_year != w->tm_year || g->tm_wday != w->tm_wday || g->tm_yday != w->tm_yday || g->tm_isdst != w->tm_isdst || g->tm_gmtoff != w->tm_gmtoff || g->tm_zone != w->tm_zone)
        pbt_fail(P, "time", "attempt %d: %s: struct tm is {%d %d %d %d %d %d %d %d %d %ld}, expected {%d %d %d %d %d %d %d %d %d %ld}", att_cur, when,
                 g->tm_sec, g->tm_min, g->tm_hour, g->tm_mday, g->tm_mon, g->tm_year, g->tm_wday, g->tm_yday, g->tm_isdst, g->tm_gmtoff,
                 w->tm_sec, w->tm_min, w->tm_hour, w->tm_mday, w->tm_mon, w->tm_year, w->tm_wday, w->tm_yday, w->tm_isdst, w->tm_gmtoff);
}
static void att_start(void) { memcpy(S, com, N); tS = tcom; }
static void att_finish_body(void)
{
    struct attempt* a = &att[att_cur];
    if (a->nops % 2) {
        load_tx(A, buf, N); arena("view at the end of the transaction", buf, S);
        struct tm t = load_struct_tm_tx(tA); timechk("view at the end of the transaction", &t, &tS);
    }
    T("=> %s\n", att_endname[a->end]);
}
static void att_committed(void) { memcpy(com, S, N); tcom = tS; arena("after commit", A, com); timechk("after commit", tA, &tcom); }
static void att_rolledback(void) { arena("after roll-back", A, com); timechk("after roll-back", tA, &tcom); }

static void gen(struct pbt* p, struct aop* o)
{
    o->k = PBT_W(p, 3, 6, 6, 1, 2, 2);
    o->x = pbt_draw(p, 840);
    o->a = pbt_chance(p, 1, 3) ? N - pbt_draw(p, 60) : pbt_draw(p, N + 1);
    o->n = pbt_chance(p, 1, 4) ? N : pbt_draw(p, 70);
    o->ns = o->k == 0 || o->k == 3 ? 0 : 1 + pbt_draw(p, MAXSPEC);
    for (int i = 0; i < 24; ++i) o->v[i] = o->k ? 0 : pbt_chance(p, 1, 4) ? pbt_draw(p, 256) : "abc 12%\xe9"[pbt_draw(p, 8)];
    if (o->k == 5) o->v[0] = pbt_draw(p, 96);
    for (int i = 0; i < 9; ++i) {
        static const int hi[] = { 60, 59, 23, 31, 11, 200, 6, 365, 1 };
        o->tmf[i] = o->k != 3 && o->k != 5 ? 0 : o->k == 3 && pbt_chance(p, 1, 12) ? (int)pbt_range(p, -100, 3000) : (int)pbt_draw(p, hi[i] + 1) + (i == 3 && o->k == 5);
        if (i == 3 && o->tmf[i] > 31 && o->k == 5) o->tmf[i] = 31;
    }
    for (unsigned k = 0; k < o->ns; ++k) {
        struct spec* s = &o->s[k];
        bool z = pbt_chance(p, 1, 40);
        s->conv = o->k == 1 ? (z ? 21 : pbt_chance(p, 1, 3) ? 15 + pbt_draw(p, 6) : pbt_draw(p, 21)) : o->k == 2 ? pbt_draw(p, z ? 19 : 16) : 0;
        if (o->k == 1 && s->conv == 20) s->conv = pbt_chance(p, 1, 4) ? 20 : 15;
        s->flags = pbt_chance(p, 1, 2) ? 0 : pbt_draw(p, 64);
        s->width = pbt_draw(p, 64);
        s->prec = pbt_draw(p, 64);
        s->len = pbt_chance(p, 1, 2) ? 0 : pbt_draw(p, 9);
        s->off = pbt_chance(p, 1, 3) ? N - pbt_draw(p, 40) : pbt_draw(p, N);
        s->lit = pbt_draw(p, 9);
        s->iv = pbt_u64(p);
        s->dv = pbt_chance(p, 1, 8) ? (double[]){ 0.0, -0.0, INFINITY, NAN, 1e300, 5e-324, -1e10, 0.1 }[pbt_draw(p, 8)]
                                    : ldexp((double)(int64_t)pbt_draw(p, 1u << 30), (int)pbt_range(p, -60, 20)) * (pbt_chance(p, 1, 2) ? -1 : 1);
    }
}

void prop_case(struct pbt* p)
{
    P = p;
    setlocale(LC_ALL, pbt_chance(p, 1, 2) ? "C.UTF-8" : "C");
    unsigned nul = 2 + pbt_draw(p, 20);
    for (int i = 0; i < N; ++i) com[i] = pbt_chance(p, 1, nul) ? 0 : "abc 12%"[pbt_draw(p, 7)];
    memcpy(A, com, N);
    memset(&tcom, 0, sizeof tcom);
    tcom.tm_zone = tz[0];
    *tA = tcom;
    memset(F, 0, FN);
    convs = stores = 0;
    int ntx = 1 + pbt_draw(p, 4);
    for (int t = 0; t < ntx; ++t) { att_gen(p, gen, NULL); T("tx %d\n", t); att_run(); }
    if (convs >= 3 && stores) pbt_nontrivial(p);
}
