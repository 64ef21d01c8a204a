/* D01, D02: threads that use and change the process's working directory or locale. Modes: cwd, cwdrace,
 * loc, locrace (scheduled at operation granularity or free-running). */
#define _GNU_SOURCE
#include "mt.h"
#include <errno.h>
#include <langinfo.h>
#include <locale.h>
#include <sys/stat.h>
#include <picotm/picotm.h>
#include <picotm/picotm-module.h>
#include <picotm/picotm-tm.h>
#include <picotm/picotm-libc.h>
#include <picotm/fcntl.h>
#include <picotm/locale.h>
#include <picotm/unistd.h>
#include <picotm/stdlib.h>
#include <picotm/sys/stat.h>

int prop_flaky_ok = 1;
int prop_batch = 50;
int prop_timeout_ms = 30000;
const char prop_rule[] =
    "2-4 threads x 1-4 transactions x 1-5 operations on the process-wide working directory (chdir to absolute and relative "
    "names, that may not exist from there, fchdir, getcwd, relative stat and open) or locale (setlocale and queries of "
    "categories, LC_ALL, localeconv; locale objects in shared memory that are replaced and freed, duplicated and used); some "
    "transactions fail or become irrevocable; scheduled at operation granularity or free-running. Oracle: a serial order "
    "explains all results and the final state. Non-trivial: an attempt was restarted or two threads committed changes.";

enum { ND = 6, NCAT = 3, NSL = 2, MAXT = 4, MAXTX = 4, MAXOP = 5, ROPS = 16, MAXREC = 60 };
enum { CHDIR, CHREL, FCHDIR, GETCWD, STAT, OPEN, SET, GET, CONV, REPL, DUPR, USE };
static const char* const rname[] = { "chdir", "chdir-relative", "fchdir", "getcwd", "stat", "open", "setlocale", "query", "localeconv", "replace", "duplocale", "uselocale" };
struct rop { int8_t k, x, y, v[NCAT]; };
struct model { int8_t cwd, cat[NCAT], sl[NSL]; };
/* the tree: name, children a and b, parent */
static const char* const dname[ND] = { "", "/a", "/b", "/a/a", "/a/b", "/b/a" };
static const int8_t child[ND][3] = { { 1, 2, -2 }, { 3, 4, 0 }, { 5, -1, 0 }, { -1, -1, 1 }, { -1, -1, 1 }, { -1, -1, 2 } };
static const char* const rel[] = { "a", "b", ".." };
static const char* const lname[] = { "C", "C.utf8", "en_US.utf8" };
static const int lcat[NCAT] = { LC_CTYPE, LC_NUMERIC, LC_TIME };
static const int lmask[NCAT] = { LC_CTYPE_MASK, LC_NUMERIC_MASK, LC_TIME_MASK };
static struct pbt* P;
static char base[150];
static int dfd[ND];
static locale_t slot[NSL];

static bool hist_apply(struct model* m, const struct rop* o)
{
    switch (o->k) {
    case CHDIR: case FCHDIR: m->cwd = o->x; return true;
    case CHREL: {       /* y: success; the root's parent is outside of the tree and never generated to succeed */
        int c = child[m->cwd][o->x];
        if (o->y != (c >= 0)) return false;
        if (c >= 0) m->cwd = c;
        return true;
    }
    case GETCWD: case STAT: case OPEN: return o->y == m->cwd;
    case SET: for (int i = 0; i < NCAT; ++i) if (o->x == i || o->x == NCAT) m->cat[i] = o->y; return true;
    case GET: for (int i = 0; i < NCAT; ++i) if ((o->x == i || o->x == NCAT) && o->v[i] != m->cat[i]) return false; return true;
    case CONV: return o->y == (m->cat[1] == 2);
    case REPL: if (o->v[0] != m->sl[o->x]) return false; m->sl[o->x] = o->y; return true;
    case DUPR: case USE: return o->y == m->sl[o->x];
    }
    return false;
}
static uint64_t hist_hash(uint64_t mask, const struct model* m)
{
    uint64_t h = mask * 0x9e3779b97f4a7c15ull + 77;
    for (unsigned i = 0; i < sizeof *m; ++i) h = (h ^ ((const uint8_t*)m)[i]) * 0x100000001b3ull ^ h >> 31;
    return h * 0xbf58476d1ce4e5b9ull | 1;
}
#include "hist.h"
static void hist_print(struct pbt* p, const struct rop* o)
{
    pbt_trace(p, " %s(%d)", rname[(int)o->k], o->x);
    if (o->k == GET) pbt_trace(p, "=%d,%d,%d", o->v[0], o->v[1], o->v[2]);
    else if (o->k == REPL) pbt_trace(p, ":%d->%d", o->v[0], o->y);
    else if (o->k != CHDIR && o->k != FCHDIR) pbt_trace(p, "=%d", o->y);
}

struct op { int k; unsigned x, y; };
struct tx { int n; struct op op[MAXOP]; bool irrev, fail; };
static struct { int n; struct tx tx[MAXTX]; } prog[MAXT];
static int nthreads;
static volatile int aborted;
static uint8_t sched[300];
static pthread_barrier_t bar;
static bool race, loc, conv;
static __thread struct rec* volatile R;
static __thread volatile int may_fail;

static struct rop* note(int k, int x)
{
    struct rop* o = &R->op[R->n];
    memset(o, 0, sizeof *o);
    o->k = k; o->x = x;
    return o;
}
static void done(void) { __atomic_store_n(&R->n, R->n + 1, __ATOMIC_RELEASE); }
static int dir_of(const char* s)
{
    size_t n = strlen(base);
    if (!strncmp(s, base, n)) for (int i = 0; i < ND; ++i) if (!strcmp(s + n, dname[i])) return i;
    pbt_fail(P, "getcwd", "getcwd returned %s", s);
    return -1;
}
static int loc_of(const char* s)
{
    for (int i = 0; s && i < 3; ++i) if (!strcmp(s, lname[i])) return i;
    pbt_fail(P, "query", "the locale is %s", s ? s : "NULL");
    return -1;
}
static void parse_all(struct rop* r, const char* s)
{
    static const char* const cn[NCAT] = { "LC_CTYPE=", "LC_NUMERIC=", "LC_TIME=" };
    for (int i = 0; i < NCAT; ++i) {
        const char* q = s ? strstr(s, cn[i]) : NULL;
        if (!q) { r->v[i] = loc_of(s); continue; }
        char b[40]; q += strlen(cn[i]);
        size_t n = strcspn(q, ";"); if (n > 39) n = 39;
        memcpy(b, q, n); b[n] = 0;
        r->v[i] = loc_of(b);
    }
}
static int obj_name(locale_t l)
{
    int i = loc_of(nl_langinfo_l(_NL_LOCALE_NAME(LC_CTYPE), l));
    if (i != loc_of(nl_langinfo_l(_NL_LOCALE_NAME(LC_TIME), l))) pbt_fail(P, "object", "mixed locale object");
    return i;
}

static void do_op(int t, struct op* o)
{
    static __thread char buf[300];
    struct rop* r;
    switch (o->k) {
    case CHDIR:
        snprintf(buf, sizeof buf, "%s%s", base, dname[o->x % ND]);
        r = note(o->k, o->x % ND);
        if (chdir_tx(buf)) pbt_fail(P, "chdir", "thread %d: chdir failed", t);
        done();
        break;
    case CHREL:
        r = note(o->k, o->x % 3);
        may_fail = 1;       /* y stays 0: failed */
        if (o->x % 3 == 2) {        /* not above the root */
            r = note(GETCWD, 0);
            r->y = dir_of(getcwd_tx(buf, sizeof buf));
            done();
            if (r->y == 0) { may_fail = 0; return; }
            r = note(o->k, o->x % 3);
        }
        if (chdir_tx(rel[o->x % 3])) pbt_fail(P, "chdir", "thread %d: chdir failed", t);
        may_fail = 0;
        r->y = 1;
        done();
        break;
    case FCHDIR:
        r = note(o->k, o->x % ND);
        may_fail = 2;
        if (fchdir_tx(dfd[o->x % ND])) pbt_fail(P, "fchdir", "thread %d: fchdir failed", t);
        may_fail = 0;
        done();
        break;
    case GETCWD:
        r = note(o->k, 0);
        r->y = dir_of(getcwd_tx(buf, sizeof buf));
        done();
        break;
    case STAT: {
        static __thread struct stat st;
        r = note(o->k, 0);
        if (stat_tx("id", &st)) pbt_fail(P, "stat", "thread %d: stat failed", t);
        r->y = st.st_size - 1;
        done();
        break;
    }
    case OPEN: {
        r = note(o->k, 0);
        int fd = open_tx("id", O_RDONLY);
        if (fd < 0 || pread_tx(fd, buf, 10, 0) < 1) pbt_fail(P, "open", "thread %d: open or read failed", t);
        r->y = buf[0];
        done();
        close_tx(fd);
        break;
    }
    case SET: {
        int c = o->x % (NCAT + 1);
        r = note(o->k, c);
        r->y = o->y % 3;
        const char* s = setlocale_tx(c < NCAT ? lcat[c] : LC_ALL, lname[(int)r->y]);
        if (!s) pbt_fail(P, "setlocale", "thread %d: setlocale failed", t);
        done();
        break;
    }
    case GET: {
        int c = o->x % (NCAT + 1);
        r = note(o->k, c);
        const char* s = setlocale_tx(c < NCAT ? lcat[c] : LC_ALL, NULL);
        if (c < NCAT) r->v[c] = loc_of(s); else parse_all(r, s);
        done();
        break;
    }
    case CONV: {
        if (!conv) return;      /* its static result is overwritten by threads with locales of their own */
        r = note(o->k, 0);
        struct lconv* l = localeconv_tx();
        r->y = l->thousands_sep[0] == ',';
        done();
        break;
    }
    case REPL: {
        int s = o->x % NSL;
        r = note(o->k, s);
        locale_t old, l;
        load_tx(slot + s, &old, sizeof old);
        r->v[0] = obj_name(old);
        r->y = o->y % 3;
        if (o->y / 4 & 1) l = newlocale_tx(LC_ALL_MASK, lname[(int)r->y], (locale_t)0);
        else l = newlocale_tx(LC_ALL_MASK, lname[(int)r->y], old);
        if (!l) pbt_fail(P, "newlocale", "thread %d: newlocale failed", t);
        store_tx(slot + s, &l, sizeof l);
        if (o->y / 4 & 1) freelocale_tx(old);
        done();
        break;
    }
    case DUPR: {
        int s = o->x % NSL;
        r = note(o->k, s);
        locale_t l, d;
        load_tx(slot + s, &l, sizeof l);
        d = duplocale_tx(l);
        if (!race) mt_point();
        r->y = obj_name(d);
        freelocale_tx(d);
        done();
        break;
    }
    case USE: {
        if (conv) return;
        int s = o->x % NSL;
        r = note(o->k, s);
        locale_t l, old;
        load_tx(slot + s, &l, sizeof l);
        old = uselocale_tx(l);
        if (old != LC_GLOBAL_LOCALE) pbt_fail(P, "uselocale", "thread %d: unexpected previous locale", t);
        if (!race) mt_point();
        r->y = loc_of(nl_langinfo_l(_NL_LOCALE_NAME(LC_CTYPE), uselocale((locale_t)0)));
        if (uselocale_tx(LC_GLOBAL_LOCALE) != l) pbt_fail(P, "uselocale", "thread %d: unexpected previous locale", t);
        done();
        break;
    }
    }
}

__attribute__((noinline)) static void run_tx(int t, struct tx* x)
{
    static __thread volatile int i;
    R = NULL;
    picotm_begin
        mt_attempt(P, R != NULL, picotm_is_irrevocable());
        if (R) { R->end = mt_tick(); aborted = 1; }
        if (loc && uselocale((locale_t)0) != LC_GLOBAL_LOCALE) pbt_fail(P, "uselocale", "thread %d: locale in use after roll-back", t);
        R = new_rec(t);
        may_fail = 0;
        if (x->irrev && !picotm_is_irrevocable()) picotm_irrevocable();
        for (i = 0; i < x->n; ++i) {
            if (!race) mt_point();
            do_op(t, &x->op[i]);
        }
        if (!race) mt_point();
        if (x->fail) picotm_recover_from_error_code(PICOTM_GENERAL_ERROR);
    picotm_commit
        if (may_fail == 1 && picotm_error_status() == PICOTM_ERRNO && picotm_error_as_errno() == ENOENT) { done(); R->end = mt_tick(); aborted = 1; mt_finished(); return; }
        if (!x->fail) pbt_fail(P, "error", "unexpected recovery %d (%ld)", picotm_error_status(), picotm_error_status() == PICOTM_ERRNO ? (long)picotm_error_as_errno() : -1);
        R->end = mt_tick();
        mt_finished(); return;
    picotm_end
    mt_finished();
    R->end = mt_tick();
    R->committed = true;
}
static void body(int t)
{
    if (race) pthread_barrier_wait(&bar);
    for (int i = 0; i < prog[t].n; ++i) run_tx(t, &prog[t].tx[i]);
    picotm_release();
}
static struct model init;

void prop_case(struct pbt* p)
{
    P = p;
    loc = !strncmp(pbt_mode, "loc", 3);
    race = strlen(pbt_mode) > 3;
    nthreads = 2 + pbt_draw(p, MAXT - 1);
    memset(&init, 0, sizeof init);
    conv = loc && pbt_chance(p, 1, 3);
    if (!loc) {
        char b[300];
        static int ready;
        if (!ready) {
            ready = 1;
            snprintf(base, sizeof base, "%s/t", pbt_scratch());
            for (int i = 0; i < ND; ++i) {
                snprintf(b, sizeof b, "%s%s", base, dname[i]); mkdir(b, 0700);
                strcat(b, "/id");
                int fd = open(b, O_CREAT | O_TRUNC | O_WRONLY, 0600);
                for (int j = 0; j <= i; ++j) { char c = i; if (fd < 0 || write(fd, &c, 1) != 1) pbt_inconclusive(p, "scratch"); }
                close(fd);
            }
        }
        for (int i = 0; i < ND; ++i) { snprintf(b, sizeof b, "%s%s", base, dname[i]); dfd[i] = open(b, O_RDONLY); }
        init.cwd = pbt_draw(p, ND);
        snprintf(b, sizeof b, "%s%s", base, dname[(int)init.cwd]);
        if (chdir(b)) pbt_inconclusive(p, "scratch");
        pbt_trace(p, "in %d\n", init.cwd);
    } else {
        setlocale(LC_ALL, "C");
        for (int i = 0; i < NCAT; ++i) setlocale(lcat[i], lname[init.cat[i] = pbt_draw(p, 3)]);
        for (int i = 0; i < NSL; ++i) slot[i] = newlocale(LC_ALL_MASK, lname[init.sl[i] = pbt_draw(p, 3)], (locale_t)0);
    }
    for (int t = 0; t < nthreads; ++t) {
        prog[t].n = 1 + pbt_draw(p, race ? MAXTX : 3);
        pbt_trace(p, "T%d:", t);
        for (int i = 0; i < prog[t].n; ++i) {
            struct tx* x = &prog[t].tx[i];
            x->n = 1 + pbt_draw(p, MAXOP);
            x->irrev = pbt_chance(p, 1, 14);
            x->fail = pbt_chance(p, 1, 10);
            pbt_trace(p, " {%s%s", x->irrev ? "irrevocable " : "", x->fail ? "fails " : "");
            for (int j = 0; j < x->n; ++j) {
                struct op* o = &x->op[j];
                o->k = loc ? SET + PBT_W(p, 4, 3, 2, 3, 2, 3) : PBT_W(p, 4, 3, 1, 3, 3, 2);
                o->x = pbt_draw(p, 12); o->y = pbt_draw(p, 12);
                pbt_trace(p, " %s(%u,%u)", rname[o->k], o->x, o->y);
            }
            pbt_trace(p, "}");
        }
        pbt_trace(p, "\n");
    }
    int ns = race ? 0 : mt_gen_sched(p, sched, sizeof(sched));
    nrec = 0; aborted = 0; mt_clock = 0;
    if (race) {
        pthread_barrier_init(&bar, NULL, nthreads);
        mt_stress(nthreads, body);
        pthread_barrier_destroy(&bar);
    } else mt_run(nthreads, body, sched, ns);

    R = new_rec(9);
    if (!loc) {
        static char b[4200];
        struct rop* r = note(GETCWD, 0);
        r->y = dir_of(getcwd(b, sizeof b) ? b : "?"); done();
        for (int i = 0; i < ND; ++i) close(dfd[i]);
        if (chdir(base)) pbt_inconclusive(p, "scratch");
    } else {
        struct rop* r = note(GET, NCAT);
        parse_all(r, setlocale(LC_ALL, NULL)); done();
        for (int i = 0; i < NSL; ++i) { r = note(USE, i); r->y = obj_name(slot[i]); done(); freelocale(slot[i]); }
    }
    R->end = mt_tick(); R->committed = true;

    unsigned wr = 0;
    for (int i = 0; i < nrec; ++i) if (recs[i].committed && recs[i].thread < 8)
        for (int j = 0; j < recs[i].n; ++j) { int k = recs[i].op[j].k; if (k <= FCHDIR || k == SET || k == REPL) wr |= 1 << recs[i].thread; }
    if (wr & (wr - 1)) pbt_nontrivial(p);
    if (aborted) { pbt_nontrivial(p); pbt_label(p, "conflict"); }
    if (!mt_lone()) hist_check(p, &init);
}
