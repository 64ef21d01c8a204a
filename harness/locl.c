/* D02: locales. Transactions query and change the process's locale, and create, duplicate, use and free
 * locale objects. Oracle: a model of the process's locale; shadow objects built by the C library. */
#define _GNU_SOURCE
#include "pbt.h"
#include <errno.h>
#include <langinfo.h>
#include <locale.h>
#include <sanitizer/asan_interface.h>
#include <picotm/picotm-tm.h>
#include <picotm/picotm-libc.h>
#include <picotm/locale.h>

const char prop_rule[] =
    "1-6 transactions of 1-10 operations per attempt: setlocale with any category and names (C, POSIX, C.utf8, en_US.utf8, "
    "the environment's, composite, unknown, too long), queries, localeconv, and newlocale (with and without base), duplocale, "
    "uselocale and freelocale on up to 8 locale objects, with objects of earlier transactions; commit, errors, conflicts, "
    "irrevocability, recovery+restart. Oracle: a model of the 12 categories; objects built by the C library; AddressSanitizer. "
    "Non-trivial: a roll-back and a commit of changes.";

enum { ATT_MAXOPS = 10, NOBJ = 8 };
struct aop { int k; unsigned cat, name, obj, obj2, mask; };
#include "att.h"
#define T(...) pbt_trace(P, __VA_ARGS__)
enum { SET, GET, CONV, NEW, DUP, FREE, USE };

static const int cats[] = { LC_CTYPE, LC_NUMERIC, LC_TIME, LC_COLLATE, LC_MONETARY, LC_MESSAGES, LC_PAPER, LC_NAME, LC_ADDRESS, LC_TELEPHONE, LC_MEASUREMENT, LC_IDENTIFICATION };
static const char* const catn[] = { "LC_CTYPE", "LC_NUMERIC", "LC_TIME", "LC_COLLATE", "LC_MONETARY", "LC_MESSAGES", "LC_PAPER", "LC_NAME", "LC_ADDRESS", "LC_TELEPHONE", "LC_MEASUREMENT", "LC_IDENTIFICATION" };
enum { NC = 12 };
static char longname[400];
static const char* const names[] = { "C", "POSIX", "C.utf8", "en_US.utf8", "en_US.UTF-8", "", "xx_YY", "en_US.latin77", longname, "LC_CTYPE=C" };
enum { NNAMES = 10, BAD = 6 };

/* an object: the real one and its shadow */
struct obj { locale_t l, s; };
struct model { const char* g[NC]; struct obj o[NOBJ]; int cur; };
static struct model M, V;
/* what happened in the attempt */
static locale_t gone[40]; static int ngone;           /* real objects that are to be freed by commit */
static locale_t shad[80]; static int nshad;          /* shadows made in this attempt */
static bool dead[NOBJ], fresh[NOBJ];
static int chg, ok_c, ok_r;
static locale_t Cloc;

static const char* canon(const char* n) { return !strcmp(n, "POSIX") || !*n ? "C" : n; }
static const char* composite(const char* const* g, char* b)
{
    int i; for (i = 1; i < NC && !strcmp(g[i], g[0]); ++i);
    if (i == NC) return g[0];
    /* the order used by the C library */
    int o = 0;
    for (i = 0; i < NC; ++i) o += sprintf(b + o, "%s%s=%s", i ? ";" : "", catn[i], g[i]);
    return b;
}
static const char* objname(locale_t l, int i) { return nl_langinfo_l(_NL_LOCALE_NAME(cats[i]), l); }
static locale_t own(int i) { return i == -1 ? LC_GLOBAL_LOCALE : V.o[i].l; }

static void cmpobj(int i, struct obj* o, const char* when)
{
    if (__asan_address_is_poisoned(o->l)) pbt_fail(P, "freed", "attempt %d: %s: locale object %d was freed", att_cur, when, i);
    for (int c = 0; c < NC; ++c)
        if (strcmp(objname(o->l, c), objname(o->s, c))) pbt_fail(P, "object", "attempt %d: %s: locale object %d has %s %s, expected %s", att_cur, when, i, catn[c], objname(o->l, c), objname(o->s, c));
    if (strcmp(nl_langinfo_l(CODESET, o->l), nl_langinfo_l(CODESET, o->s)) || strcmp(nl_langinfo_l(D_FMT, o->l), nl_langinfo_l(D_FMT, o->s)) || strcmp(nl_langinfo_l(THOUSEP, o->l), nl_langinfo_l(THOUSEP, o->s)))
        pbt_fail(P, "object", "attempt %d: %s: locale object %d has other contents than expected", att_cur, when, i);
}
static void cmp(struct model* m, const char* when)
{
    char b[2000];
    for (int c = 0; c < NC; ++c) {
        const char* s = setlocale(cats[c], NULL);
        if (!s || strcmp(s, m->g[c])) pbt_fail(P, "locale", "attempt %d: %s: %s is %s, expected %s", att_cur, when, catn[c], s ? s : "NULL", m->g[c]);
    }
    const char* s = setlocale(LC_ALL, NULL), *w = composite(m->g, b);
    if (strcmp(s, w)) pbt_fail(P, "locale", "attempt %d: %s: LC_ALL is %s, expected %s", att_cur, when, s, w);
    locale_t u = uselocale((locale_t)0);
    if (u != (m->cur < 0 ? LC_GLOBAL_LOCALE : m->o[m->cur].l)) pbt_fail(P, "uselocale", "attempt %d: %s: the thread does not use its locale (%d)", att_cur, when, m->cur);
    uselocale(LC_GLOBAL_LOCALE);
    if (strcmp(nl_langinfo(CODESET), strcmp(m->g[0], "C") ? "UTF-8" : "ANSI_X3.4-1968")) pbt_fail(P, "effect", "attempt %d: %s: codeset is %s with LC_CTYPE %s", att_cur, when, nl_langinfo(CODESET), m->g[0]);
    if (strcmp(localeconv()->thousands_sep, m->g[1][0] == 'e' ? "," : "")) pbt_fail(P, "effect", "attempt %d: %s: thousands separator does not fit LC_NUMERIC %s", att_cur, when, m->g[1]);
    if (strcmp(nl_langinfo(D_FMT), m->g[2][0] == 'e' ? "%m/%d/%Y" : "%m/%d/%y")) pbt_fail(P, "effect", "attempt %d: %s: date format does not fit LC_TIME %s", att_cur, when, m->g[2]);
    uselocale(u);
    for (int i = 0; i < NOBJ; ++i) if (m->o[i].l) cmpobj(i, &m->o[i], when);
}

static void att_start(void)
{
    V = M;
    ngone = chg = 0;
    memset(dead, 0, sizeof dead); memset(fresh, 0, sizeof fresh);
    T(" attempt: ");
}
static void att_finish_body(void) { T("=> %s\n", att_endname[att[att_cur].end]); }
static void att_committed(void)
{
    if (chg) ok_c = 1;
    for (int i = 0; i < ngone; ++i) if (gone[i] != Cloc) {
        for (int j = 0; j < NOBJ; ++j) if (V.o[j].l == gone[i]) goto reused;      /* by newlocale */
        if (!__asan_address_is_poisoned(gone[i])) pbt_fail(P, "not-freed", "attempt %d: after commit: a locale object that was freed or replaced still exists", att_cur);
reused:;
    }
    M = V;
    cmp(&M, "after commit");
}
static locale_t made[40]; static int nmade;
static void att_rolledback(void)
{
    if (chg) ok_r = 1;
    for (int i = 0; i < nmade; ++i) {
        if (made[i] == Cloc) continue;
        for (int j = 0; j < NOBJ; ++j) if (M.o[j].l == made[i]) goto old;
        if (!__asan_address_is_poisoned(made[i])) pbt_fail(P, "not-freed", "attempt %d: after roll-back: a locale object of the transaction still exists", att_cur);
old:;
    }
    cmp(&M, "after roll-back");
}

static void att_op(struct aop* o)
{
    static char b[2000], b2[2000];
    const char* name = names[o->name % NNAMES];
    errno = 0;
    switch (o->k) {
    case SET: {
        int c = o->cat % 14, cat = c < NC ? cats[c] : c == NC ? LC_ALL : 77;
        const char* want = name;
        bool good = o->name % NNAMES < BAD && c < 13;
        if (c == NC && o->mask % 3 == 0) { want = composite(M.g, b2); good = true; strcpy(b, want); name = b; }     /* the initial one */
        if (c < 13 && (!strcmp(name, "LC_CTYPE=C") || (c == NC && name == names[9]))) return;
        T("setlocale(%s,%.30s) ", c < NC ? catn[c] : c == NC ? "LC_ALL" : "77", name);
        if (!good) att_expect(-2, 0);
        char* r = setlocale_tx(cat, name);
        if (!good) return;
        if (name == b) memcpy(V.g, M.g, sizeof V.g);
        else for (int i = 0; i < NC; ++i) if (c == i || c == NC) V.g[i] = canon(name);
        want = c == NC ? composite(V.g, b2) : V.g[c];
        if (!r || strcmp(r, want)) pbt_fail(P, "setlocale", "attempt %d: setlocale returned %s, expected %s", att_cur, r ? r : "NULL", want);
        chg = 1;
        break;
    }
    case GET: {
        int c = o->cat % 13;
        T("query(%s) ", c < NC ? catn[c] : "LC_ALL");
        char* r = setlocale_tx(c < NC ? cats[c] : LC_ALL, NULL);
        const char* want = c < NC ? V.g[c] : composite(V.g, b);
        if (!r || strcmp(r, want)) pbt_fail(P, "query", "attempt %d: query returned %s, expected %s", att_cur, r ? r : "NULL", want);
        break;
    }
    case CONV: {
        struct lconv* l = localeconv_tx();
        const char* n = V.cur < 0 ? V.g[1] : objname(V.o[V.cur].s, 1);
        T("localeconv ");
        if (!l || strcmp(l->thousands_sep, n[0] == 'e' ? "," : "")) pbt_fail(P, "localeconv", "attempt %d: localeconv does not fit %s", att_cur, n);
        break;
    }
    case NEW: case DUP: {
        int x = o->obj % NOBJ, i;
        for (i = 0; i < NOBJ && V.o[i].l; ++i);
        if (i == NOBJ || nmade >= 40 || nshad >= 80 || ngone >= 40) return;
        static locale_t s, r; int e;
        static int base; base = -1;
        if (o->k == NEW) {
            int m = o->mask % 4 == 0 ? LC_ALL_MASK : o->mask % 64 == 1 ? 1 << 25 : 0;
            if (!m) for (int c = 0; c < NC; ++c) if (o->mask >> 4 >> c & 1) m |= 1 << cats[c];
            if (V.o[x].l && V.cur != x && o->obj2 % 4) base = x;
            s = newlocale(m, name, base < 0 ? (locale_t)0 : duplocale(V.o[base].s)), e = errno;
            T("newlocale(%#x,%.30s,%d)=%d ", m, name, base, s ? i : -1);
            if (!s) att_expect(PICOTM_ERRNO, e);
            r = newlocale_tx(m, name, base < 0 ? (locale_t)0 : V.o[base].l);
        } else {
            if (!V.o[x].l) x = -1;
            s = duplocale(x < 0 ? LC_GLOBAL_LOCALE : V.o[x].s);
            T("duplocale(%d)=%d ", x, i);
            r = duplocale_tx(x < 0 ? LC_GLOBAL_LOCALE : V.o[x].l);
        }
        if (!s) { if (r) return; att_exp_status = -1; pbt_fail(P, "newlocale", "attempt %d: newlocale failed, but the transaction did not", att_cur); }
        shad[nshad++] = s;
        if (!r) pbt_fail(P, "newlocale", "attempt %d: no locale object", att_cur);
        if (base >= 0) { gone[ngone++] = V.o[base].l; V.o[base] = (struct obj){ 0 }; }
        V.o[i] = (struct obj){ r, s };
        made[nmade++] = r;
        cmpobj(i, &V.o[i], "in the transaction");
        chg = 1;
        break;
    }
    case FREE: {
        int x = o->obj % NOBJ;
        if (!V.o[x].l || V.cur == x || ngone >= 40) return;
        T("freelocale(%d) ", x);
        freelocale_tx(V.o[x].l);
        cmpobj(x, &V.o[x], "in the transaction after freelocale");
        gone[ngone++] = V.o[x].l;
        V.o[x] = (struct obj){ 0 };
        chg = 1;
        break;
    }
    case USE: {
        int x = o->obj % (NOBJ + 3);
        if (x >= NOBJ) x -= NOBJ + 2;    /* -2: query, -1: global */
        if (x >= 0 && !V.o[x].l) return;
        T("uselocale(%d) ", x);
        locale_t r = uselocale_tx(x == -2 ? (locale_t)0 : own(x));
        if (r != own(V.cur)) pbt_fail(P, "uselocale", "attempt %d: uselocale did not return the previous locale (%d)", att_cur, V.cur);
        if (x != -2) { V.cur = x; chg = 1; }
        break;
    }
    }
    (void)b;
}
static void gen(struct pbt* p, struct aop* o)
{
    o->k = PBT_W(p, 5, 3, 1, 5, 3, 3, 4);
    o->cat = pbt_chance(p, 1, 30) ? 13 : PBT_W(p, 2, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 4);
    o->name = PBT_W(p, 8, 2, 8, 8, 3, 2, 1, 1, 1, 1);
    o->obj = pbt_draw(p, 88);
    o->obj2 = pbt_draw(p, 8);
    o->mask = pbt_draw(p, 1 << 16);
}
void prop_case(struct pbt* p)
{
    P = p;
    memset(longname, 'n', sizeof longname - 1);
    unsetenv("LC_ALL"); unsetenv("LANG");
    for (int i = 0; i < NC; ++i) unsetenv(catn[i]);
    Cloc = newlocale(LC_ALL_MASK, "C", (locale_t)0);
    uselocale(LC_GLOBAL_LOCALE);
    setlocale(LC_ALL, "C");
    memset(&M, 0, sizeof M);
    for (int i = 0; i < NC; ++i) M.g[i] = "C";
    M.cur = -1;
    nshad = ok_c = ok_r = 0;
    for (int i = 0; i < NC; ++i) if (pbt_chance(p, 1, 4)) { M.g[i] = names[2 + pbt_draw(p, 3)]; setlocale(cats[i], M.g[i]); }
    for (int i = 0; i < 3; ++i) if (pbt_chance(p, 1, 2)) {
        const char* n = names[pbt_draw(p, 4)];
        int m = 1 + pbt_draw(p, LC_ALL_MASK);
        m &= LC_ALL_MASK;
        M.o[i].l = newlocale(m, n, (locale_t)0); shad[nshad++] = M.o[i].s = newlocale(m, n, (locale_t)0);
        T("object %d: %#x,%s\n", i, m, n);
    }
    if (M.o[0].l && pbt_chance(p, 1, 2)) { M.cur = 0; uselocale(M.o[0].l); }
    int ntx = 1 + pbt_draw(p, 6);
    for (int t = 0; t < ntx; ++t) { nmade = 0; att_gen(p, gen, NULL); T("tx %d\n", t); att_run(); }
    uselocale(LC_GLOBAL_LOCALE);
    for (int i = 0; i < NOBJ; ++i) if (M.o[i].l) freelocale(M.o[i].l);
    for (int i = 0; i < nshad; ++i) freelocale(shad[i]);
    setlocale(LC_ALL, "C");
    if (ok_c && ok_r) pbt_nontrivial(p);
}
