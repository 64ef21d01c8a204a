/* C03: the transaction life-cycle as seen by modules. */
#include "pbt.h"
#include <pthread.h>
#include <picotm/picotm.h>
#include <picotm/picotm-error.h>
#include <picotm/picotm-module.h>

const char prop_rule[] =
    "1-12 modules (with generated subsets of the call-backs) are registered with a thread's transactions before "
    "and within transactions; 1-5 transactions of up to 8 attempts append up to 40 (at times several hundred) "
    "events with random module, head and tail and end in commit, error, errno, conflict, irrevocability, restart "
    "from recovery, a failing begin, a failing preparation (error, errno, conflict or request for "
    "irrevocability), or a failure after the point of no return resp. during undo. Every call-back is recorded; "
    "the record must be exactly the life-cycle the ending calls for. Non-trivial: at least two modules, an "
    "event and an attempt that does not simply commit.";

enum { C_BEGIN, C_PREP, C_APPLY, C_UNDO, C_AEV, C_UEV, C_FINISH, C_RELEASE, C_N };
static const char* const cname[] = { "begin", "prepare", "apply", "undo", "apply-event", "undo-event", "finish", "release" };
enum { MAXM = 12, MAXEV = 600, MAXREC = 2000, MAXATT = 9, MAXTX = 5 };
enum { E_COMMIT, E_ERROR, E_ERRNO, E_CONFLICT, E_IRREV, E_RESTART, E_BEGINFAIL, E_PREPFAIL, E_FATAL };
enum { F_CODE, F_ERRNO, F_CONFLICT, F_REVOCABLE };

struct mod { int id; unsigned cbs; unsigned long num; bool registered; struct picotm_module_ops ops; };
struct ev { int m; uint16_t head; uintptr_t tail; };
struct rec { int c, m; uint16_t head; uintptr_t tail; };
struct att { int nev; struct ev* ev; int late; int late_at; int end, fmod, fkind, fcb; bool rec_restart; };

static struct mod mod[MAXM];
static int nmod, nreg0;
static struct rec rec[MAXREC];
static volatile int nrec;
static struct ev evpool[MAXTX * MAXATT * 60 + 1200];
static int evused;
static struct att att[MAXTX][MAXATT];
static int natt[MAXTX], ntx;
static struct pbt* P;
static volatile int in_tx, cur_tx, cur, armed, done_end, restarts_user;
static struct att* volatile A;
static volatile int fatal_hit;

static void add(int c, int m, uint16_t h, uintptr_t t)
{
    if (nrec < MAXREC) rec[nrec] = (struct rec){ c, m, h, t };
    nrec = nrec + 1;
}

static bool fails(int c, struct mod* m, struct picotm_error* e)
{
    if (!armed || !A || A->fcb != c || A->fmod != m->id) return false;
    armed = 0;
    switch (A->fkind) {
    case F_CODE: picotm_error_set_error_code(e, PICOTM_OUT_OF_BOUNDS); break;
    case F_ERRNO: picotm_error_set_errno(e, 4242); break;
    case F_CONFLICT: picotm_error_set_conflicting(e, NULL); break;
    default: picotm_error_set_revocable(e); break;
    }
    return true;
}

static void cb_begin(void* d, struct picotm_error* e) { struct mod* m = d; add(C_BEGIN, m->id, 0, 0); fails(C_BEGIN, m, e); }
static void cb_prep(void* d, int noundo, struct picotm_error* e)
{
    struct mod* m = d;
    add(C_PREP, m->id, 0, 0);
    if (!!noundo != picotm_is_irrevocable()) pbt_fail(P, "noundo", "prepare-commit called with noundo=%d in a%s transaction", noundo, picotm_is_irrevocable() ? "n irrevocable" : " revocable");
    fails(C_PREP, m, e);
}
static void cb_apply(void* d, struct picotm_error* e) { struct mod* m = d; add(C_APPLY, m->id, 0, 0); if (fails(C_APPLY, m, e)) fatal_hit = 1; }
static void cb_undo(void* d, struct picotm_error* e) { struct mod* m = d; add(C_UNDO, m->id, 0, 0); if (fails(C_UNDO, m, e)) fatal_hit = 1; }
static void cb_aev(uint16_t h, uintptr_t t, void* d, struct picotm_error* e) { struct mod* m = d; add(C_AEV, m->id, h, t); if (fails(C_AEV, m, e)) fatal_hit = 1; }
static void cb_uev(uint16_t h, uintptr_t t, void* d, struct picotm_error* e) { struct mod* m = d; add(C_UEV, m->id, h, t); if (fails(C_UEV, m, e)) fatal_hit = 1; }
static void cb_finish(void* d, struct picotm_error* e) { struct mod* m = d; add(C_FINISH, m->id, 0, 0); if (fails(C_FINISH, m, e)) fatal_hit = 1; }
static void cb_release(void* d) { struct mod* m = d; add(C_RELEASE, m->id, 0, 0); }

static void do_register(struct mod* m)
{
    struct picotm_error e = PICOTM_ERROR_INITIALIZER;
    m->ops = (struct picotm_module_ops){
        m->cbs >> C_BEGIN & 1 ? cb_begin : NULL, m->cbs >> C_PREP & 1 ? cb_prep : NULL,
        m->cbs >> C_APPLY & 1 ? cb_apply : NULL, m->cbs >> C_UNDO & 1 ? cb_undo : NULL,
        m->cbs >> C_AEV & 1 ? cb_aev : NULL, m->cbs >> C_UEV & 1 ? cb_uev : NULL,
        m->cbs >> C_FINISH & 1 ? cb_finish : NULL, m->cbs >> C_RELEASE & 1 ? cb_release : NULL };
    m->num = picotm_register_module(&m->ops, m, &e);
    if (picotm_error_is_set(&e)) pbt_fail(P, "register", "module %d cannot be registered", m->id);
    m->registered = true;
}

static void dump(int from)
{
    pbt_trace(P, "\nrecorded:");
    for (int i = from; i < nrec && i < from + 60; ++i) pbt_trace(P, " %s(%d)", cname[rec[i].c], rec[i].m);
}

/* consumes the records of phase c: exactly once for each module in set (any order) */
static int phase(int at, int c, unsigned set, const char* what)
{
    unsigned seen = 0;
    for (int m = 0; m < nmod; ++m) if (!(mod[m].cbs >> c & 1)) set &= ~(1u << m);
    while (at < nrec && rec[at].c == c) {
        int m = rec[at].m;
        if (seen >> m & 1) { dump(0); pbt_fail(P, "twice", "%s: module %d got %s twice", what, m, cname[c]); }
        if (!(set >> m & 1)) { dump(0); pbt_fail(P, "unexpected", "%s: module %d must not get %s", what, m, cname[c]); }
        seen |= 1u << m;
        ++at;
    }
    if (seen != set) { dump(0); pbt_fail(P, "missing", "%s: modules %#x did not get %s", what, set & ~seen, cname[c]); }
    return at;
}

static int events(int at, int c, int n, bool rev, const char* what)
{
    for (int i = 0; i < n; ++i) {
        struct ev* e = &A->ev[rev ? n - 1 - i : i];
        if (!(mod[e->m].cbs >> c & 1)) continue;
        if (at >= nrec || rec[at].c != c || rec[at].m != e->m || rec[at].head != e->head || rec[at].tail != e->tail) {
            dump(0);
            pbt_fail(P, "event", "%s: expected %s of event %d (module %d, head %u, tail %lx)", what, cname[c], rev ? n - 1 - i : i, e->m, e->head, (long)e->tail);
        }
        ++at;
    }
    return at;
}

static unsigned regset(void) { unsigned s = 0; for (int i = 0; i < nmod; ++i) if (mod[i].registered) s |= 1u << i; return s; }

/* the attempt that ran last must have produced exactly this record since its begin */
static volatile unsigned begun;         /* registered when the attempt began */
static volatile int nev_done;

static void check_begin(void)
{
    int at = phase(0, C_BEGIN, begun, "begin");
    if (at != nrec) { dump(0); pbt_fail(P, "extra", "call-back %s(%d) at the begin of a transaction", cname[rec[at].c], rec[at].m); }
    nrec = 0;
}

static void check_commit(void)
{
    unsigned s = regset();
    int at = phase(0, C_PREP, s, "commit");
    at = phase(at, C_APPLY, s, "commit");
    at = events(at, C_AEV, nev_done, false, "commit");
    at = phase(at, C_FINISH, s, "commit");
    if (at != nrec) { dump(0); pbt_fail(P, "extra", "call-back %s(%d) after commit", cname[rec[at].c], rec[at].m); }
    nrec = 0;
}

/* prep: preparation started before the roll-back */
static int roll_back(int at)
{
    unsigned s = regset();
    at = phase(at, C_UNDO, s, "roll-back");
    at = events(at, C_UEV, nev_done, true, "roll-back");
    return phase(at, C_FINISH, s, "roll-back");
}

static int prep_failed(int at)
{
    unsigned s = regset(), seen = 0;
    while (at < nrec && rec[at].c == C_PREP) {
        if (seen >> rec[at].m & 1 || !(s >> rec[at].m & 1)) { dump(0); pbt_fail(P, "twice", "module %d prepared twice", rec[at].m); }
        seen |= 1u << rec[at].m;
        if (seen >> A->fmod & 1 && rec[at].m != A->fmod) { dump(0); pbt_fail(P, "after-failure", "module %d prepared after preparation failed", rec[at].m); }
        ++at;
    }
    return at;
}

static volatile int begin_failed;

__attribute__((noinline)) static void run_tx(int x)
{
    static volatile int i;
    cur_tx = x;
    cur = 0;
    nrec = 0;
    begin_failed = 0;
    A = &att[x][0];
    begun = regset();
    armed = A->end == E_BEGINFAIL;
    done_end = 0;
    picotm_begin
        if (done_end) {             /* next attempt: the previous one was rolled back within picotm */
            int at = 0;
            if (A->end == E_PREPFAIL) at = prep_failed(at);
            at = roll_back(at);
            /* move this attempt's begin to the front */
            int n = nrec - at;
            memmove(rec, rec + at, n * sizeof(*rec));
            nrec = n;
            cur = cur + 1;
            if (cur >= natt[x]) pbt_fail(P, "retries", "unexpected restart");
            A = &att[x][cur];
            begun = regset();
            if (begin_failed) begin_failed = 0;
        }
        done_end = 0;
        nev_done = 0;
        check_begin();
        for (i = 0; i < A->nev; ++i) {
            if (A->late >= 0 && A->late_at == i && !mod[A->late].registered) do_register(&mod[A->late]);
            struct picotm_error e = PICOTM_ERROR_INITIALIZER;
            struct ev* ev = &A->ev[i];
            if (!mod[ev->m].registered) ev->m = 0;
            picotm_append_event(mod[ev->m].num, ev->head, ev->tail, &e);
            if (picotm_error_is_set(&e)) pbt_fail(P, "append", "event %d rejected", i);
            nev_done = nev_done + 1;
        }
        if (nrec) { dump(0); pbt_fail(P, "extra", "call-back %s within the transaction", cname[rec[0].c]); }
        done_end = 1;
        /* arm a failing begin of the next attempt */
        switch (A->end) {
        case E_ERROR: picotm_recover_from_error_code(PICOTM_GENERAL_ERROR); break;
        case E_ERRNO: case E_RESTART: picotm_recover_from_errno(4711); break;
        case E_CONFLICT: picotm_resolve_conflict(NULL); break;
        case E_IRREV: if (!picotm_is_irrevocable()) picotm_irrevocable(); break;
        case E_PREPFAIL: case E_FATAL:
            armed = 1;
            if (A->end == E_FATAL && (A->fcb == C_UNDO || A->fcb == C_UEV)) picotm_recover_from_errno(4711);
            break;
        }
    picotm_commit
        int st = picotm_error_status();
        bool nonrec = picotm_error_is_non_recoverable();
        if (!done_end) {            /* a module's begin failed */
            if (A->end != E_BEGINFAIL || armed) pbt_fail(P, "unexpected-error", "begin failed with status %d", st);
            int at = 0;
            unsigned ok = 0;
            while (at < nrec && rec[at].c == C_BEGIN) { if (rec[at].m != A->fmod) ok |= 1u << rec[at].m; ++at; }
            unsigned fin = 0;
            while (at < nrec && rec[at].c == C_FINISH) {
                int m = rec[at].m;
                if (fin >> m & 1) pbt_fail(P, "twice", "module %d finished twice after a failed begin", m);
                if (!(ok >> m & 1) && mod[m].cbs >> C_BEGIN & 1 && m != A->fmod) pbt_fail(P, "unexpected", "module %d finished without begin", m);
                fin |= 1u << m;
                ++at;
            }
            for (int m = 0; m < nmod; ++m)
                if (ok >> m & 1 && mod[m].cbs >> C_FINISH & 1 && !(fin >> m & 1)) { dump(0); pbt_fail(P, "missing", "module %d began but did not finish after another module's begin failed", m); }
            if (at != nrec) { dump(0); pbt_fail(P, "extra", "call-back %s after a failed begin", cname[rec[at].c]); }
            int want = A->fkind == F_CODE ? PICOTM_ERROR_CODE : A->fkind == F_ERRNO ? PICOTM_ERRNO : A->fkind == F_CONFLICT ? PICOTM_CONFLICTING : PICOTM_REVOCABLE;
            if (st != want) pbt_fail(P, "wrong-error", "begin failed with status %d, recovery sees %d", want, st);
            pbt_label(P, "begin-failed");
            nrec = 0;
            done_end = 2;
        } else if (A->end == E_FATAL) {
            if (!fatal_hit) {       /* nobody to fail: an ordinary commit or roll-back */
                armed = 0;
                if (A->fcb != C_UNDO && A->fcb != C_UEV) pbt_fail(P, "unexpected-error", "recovery with status %d", st);
                int at = roll_back(0);
                if (at != nrec) { dump(0); pbt_fail(P, "extra", "call-back after roll-back"); }
                nrec = 0;
                done_end = 2;
            } else {
                /* after the point of no return: nothing may be undone */
                bool commit = A->fcb != C_UNDO && A->fcb != C_UEV, undone = false;
                for (int k = 0; k < nrec; ++k) undone |= rec[k].c == C_UNDO || rec[k].c == C_UEV;
                if (commit && undone) { dump(0); pbt_fail(P, "undo-after-commit", "events or modules undone after a failure past the point of no return"); }
                if (commit && !nonrec) pbt_fail(P, "recoverable", "failure past the point of no return reported as recoverable");
                for (int k = 0; k < nrec; ++k)
                    for (int j = 0; j < k; ++j)
                        if (rec[k].c == rec[j].c && rec[k].m == rec[j].m && rec[k].c != C_AEV && rec[k].c != C_UEV && rec[k].c != C_FINISH)
                            pbt_fail(P, "twice", "module %d got %s twice", rec[k].m, cname[rec[k].c]);
                pbt_label(P, "fatal");
                pbt_nontrivial(P);
                pbt_pass_exit();
            }
        } else {
            int want = -1, at = 0;
            switch (A->end) {
            case E_ERROR: want = PICOTM_ERROR_CODE; break;
            case E_ERRNO: case E_RESTART: want = PICOTM_ERRNO; break;
            case E_PREPFAIL: want = A->fkind == F_CODE ? PICOTM_ERROR_CODE : A->fkind == F_ERRNO ? PICOTM_ERRNO : -1; at = prep_failed(0); break;
            }
            if (st != want) pbt_fail(P, "wrong-error", "ending %d: recovery sees status %d, expected %d", A->end, st, want);
            if (nonrec) pbt_fail(P, "non-recoverable", "ordinary error reported as non-recoverable");
            at = roll_back(at);
            if (at != nrec) { dump(0); pbt_fail(P, "extra", "call-back %s(%d) after roll-back", cname[rec[at].c], rec[at].m); }
            nrec = 0;
            done_end = 2;
        }
        if (A->rec_restart && cur + 1 < natt[x]) {
            cur = cur + 1;
            A = &att[x][cur];
            begun = regset();
            done_end = 0;
            armed = A->end == E_BEGINFAIL;
            restarts_user = restarts_user + 1;
            picotm_restart();
        }
    picotm_end
    if (done_end == 1) {
        if (A->end == E_FATAL && fatal_hit) pbt_fail(P, "fatal-ignored", "a failing %s went unnoticed", cname[A->fcb]);
        armed = 0;
        check_commit();
    } else if (nrec) pbt_fail(P, "extra", "call-back after recovery");
}

static void* thread_main(void* arg)
{
    (void)arg;
    for (int i = 0; i < nreg0; ++i) do_register(&mod[i]);
    for (int x = 0; x < ntx; ++x) run_tx(x);
    unsigned s = regset();
    nrec = 0;
    picotm_release();
    int at = phase(0, C_RELEASE, s, "release");
    if (at != nrec) pbt_fail(P, "extra", "call-back %s at release", cname[rec[at].c]);
    return NULL;
}

void prop_case(struct pbt* p)
{
    P = p;
    nrec = 0;
    evused = 0;
    fatal_hit = 0;
    nmod = 1 + pbt_len(p, MAXM - 1);
    nreg0 = 1 + pbt_draw(p, nmod);
    for (int i = 0; i < nmod; ++i) {
        mod[i].id = i;
        mod[i].registered = false;
        mod[i].cbs = pbt_chance(p, 1, 3) ? pbt_draw(p, 256) : 0xff;
    }
    pbt_trace(p, "%d modules (%d early); ", nmod, nreg0);
    ntx = 1 + pbt_len(p, MAXTX - 1);
    bool other = false, anyev = false;
    for (int x = 0; x < ntx; ++x) {
        natt[x] = 0;
        bool irrev = false, big = pbt_chance(p, 1, 30);
        for (;;) {
            struct att* a = &att[x][natt[x]];
            memset(a, 0, sizeof(*a));
            a->nev = big && x == 0 && !natt[x] ? 100 + pbt_draw(p, 400) : pbt_len(p, 40);
            a->ev = evpool + evused;
            evused += a->nev;
            for (int i = 0; i < a->nev; ++i) {
                a->ev[i].m = pbt_draw(p, nmod);
                a->ev[i].head = pbt_draw(p, 3) ? pbt_draw(p, 65536) : 65535;
                a->ev[i].tail = pbt_draw(p, 3) ? pbt_draw(p, 0) : pbt_draw(p, 4);
            }
            anyev |= a->nev > 0;
            a->late = pbt_chance(p, 1, 4) ? (int)pbt_draw(p, nmod) : -1;
            a->late_at = a->nev ? pbt_draw(p, a->nev) : 0;
            a->fmod = pbt_draw(p, nreg0);
            a->fkind = PBT_W(p, 3, 3, 1, 1);
            bool last = natt[x] >= MAXATT - 2;
            a->end = last ? E_COMMIT : (int)PBT_W(p, 8, 2, 2, 3, 2, 2, 2, 3, 1);
            if (irrev && (a->end == E_CONFLICT || a->end == E_IRREV)) a->end = E_COMMIT;
            if (a->end == E_BEGINFAIL) {
                /* only for begins the harness knows of: the first and those after recovery */
                bool first = !natt[x] || att[x][natt[x] - 1].rec_restart;
                if (!first || !(mod[a->fmod].cbs >> C_BEGIN & 1)) a->end = E_COMMIT;
                else { a->fcb = C_BEGIN; irrev = false; }
            }
            if (a->end == E_PREPFAIL) {
                a->fcb = C_PREP;
                if (!(mod[a->fmod].cbs >> C_PREP & 1)) a->end = E_COMMIT;
                else if (irrev && a->fkind > F_ERRNO) a->fkind = F_CODE;
            }
            if (a->end == E_FATAL) {
                static const int k[] = { C_APPLY, C_AEV, C_FINISH, C_UNDO, C_UEV };
                a->fcb = k[pbt_draw(p, 5)];
                a->fkind = pbt_draw(p, 2);
            }
            bool goes_on = a->end == E_CONFLICT || a->end == E_IRREV || (a->end == E_PREPFAIL && a->fkind > F_ERRNO);
            a->rec_restart = !goes_on && (a->end == E_RESTART || ((a->end == E_ERROR || a->end == E_PREPFAIL || a->end == E_BEGINFAIL) && pbt_chance(p, 1, 2)));
            if (a->end == E_IRREV || (a->end == E_PREPFAIL && a->fkind == F_REVOCABLE)) irrev = true;
            if (a->rec_restart) irrev = false;
            pbt_trace(p, "[%d events, late %d, end %d, module %d, kind %d, cb %s%s]", a->nev, a->late, a->end, a->fmod, a->fkind, cname[a->fcb], a->rec_restart ? ", restart" : "");
            other |= a->end != E_COMMIT;
            ++natt[x];
            if (!goes_on && !a->rec_restart) break;
        }
        pbt_trace(p, "; ");
    }
    if (nmod > 1 && anyev && other) pbt_nontrivial(p);
    pthread_t th;
    if (pthread_create(&th, NULL, thread_main, NULL)) abort();
    pthread_join(th, NULL);
}
