/* D03: signals. Threads acquire, release, add and remove signals and run transactions in which signals
 * are raised by faults, traps, or themselves. Modes: seq (generated operation order over threads),
 * race (free-running threads whose transactions fault, over shared counters). */
#define _GNU_SOURCE
#include "mt.h"
#include <errno.h>
#include <setjmp.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <picotm/picotm.h>
#include <picotm/picotm-error.h>
#include <picotm/picotm-module.h>
#include <picotm/picotm-tm.h>
#include <picotm/picotm-libc.h>
#include <picotm/stdlib.h>

const char prop_rule[] =
    "1-3 threads x 1-10 steps in generated order: acquire, release, add (recoverable or not), remove, clear signals, raise "
    "outside, release of the thread's state, and transactions of 1-6 accesses in each of up to 4 attempts with a signal (null "
    "and protected pointers, truncated mappings, divisions, traps, also within transactional loads, raise, sigqueue with a "
    "value) at a generated position, restarted or given up. Oracle: a model of dispositions, handlers, signal information, "
    "masks and memory. Race: 2-4 threads add to shared counters and fault. Non-trivial: a signal aborted a transaction.";
int prop_timeout_ms = 20000;

enum { NS = 8, NV = 6, MAXT = 3, MAXSTEP = 10, NACC = 6, NATT = 4 };
static const int sigs[NS] = { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGTRAP, SIGUSR1, SIGUSR2, 37 };
enum { ACQ, REL, ADD, REM, CLEAR, RAISE, THREND, TX };
/* how a signal is raised */
enum { NOSIG, NULLP, PROT, BUS, DIV, ILL, TRAP, RAISE_, QUEUE, TXLOAD, ASYNC };
struct attempt { int n, pos, how, sig, endsafe; struct { int k; unsigned v, val; } a[NACC]; };
struct step { int k, sig; unsigned x; int natt; struct attempt att[NATT]; };
static struct { int n; struct step s[MAXSTEP]; } prog[4];
static int nthreads;
static struct pbt* P;
static uint8_t sched[300];
static uint64_t* var;                    /* transactional memory */
static uint64_t model[NV], view[NV];
static bool acquired[NS]; static bool hasnontx[NS];
static int8_t added[4][NS];              /* 0, 1 recoverable, 2 not */
static char* prot, *bus;
static bool race;

static volatile int nontx_calls, own_calls, last_sig; static volatile int last_val;
static void nontx_handler(int s, siginfo_t* i, void* c) { ++nontx_calls; last_sig = s; last_val = i->si_value.sival_int; }
static void own_handler(int s, siginfo_t* i, void* c) { ++own_calls; last_sig = s; last_val = i->si_value.sival_int; }

__attribute__((noinline)) static void cause(int how, int sig, int val)
{
    static volatile int zero, one = 1;
    static volatile int sink;
    switch (how) {
    case NULLP: *(volatile int*)(uintptr_t)(16 + zero) = 1; break;
    case PROT: prot[100 + zero] = 1; break;
    case BUS: sink = ((volatile char*)bus)[4096 + 77]; break;
    case DIV: { int z = zero, o = one, q; __asm__ volatile("cltd; idivl %2" : "=a"(q) : "a"(o), "r"(z) : "edx"); sink = q; break; }
    case ILL: __asm__ volatile("ud2"); break;
    case TRAP: __asm__ volatile("int3"); break;
    case RAISE_: raise(sig); break;
    case QUEUE: { union sigval v = { .sival_int = val }; pthread_sigqueue(pthread_self(), sig, v); break; }
    case TXLOAD: { int x; load_tx((void*)(uintptr_t)(prot + 3000), &x, sizeof x); sink = x; break; }
    }
}
static int sig_of(int how) { return how == NULLP || how == PROT || how == TXLOAD ? 0 : how == BUS ? 1 : how == DIV ? 2 : how == ILL ? 3 : how == TRAP ? 4 : -1; }

static void check_info(const siginfo_t* i, int how, int signum, int val)
{
    if (i->si_signo != signum) pbt_fail(P, "info", "recovery from signal %d, expected %d", i->si_signo, signum);
    void* want = how == NULLP ? (void*)16 : how == PROT ? (void*)(prot + 100) : how == BUS ? (void*)(bus + 4096 + 77) : NULL;
    if (want && i->si_addr != want) pbt_fail(P, "info", "signal %d reported address %p, expected %p", signum, i->si_addr, want);
    if (how == TXLOAD && ((char*)i->si_addr < prot || (char*)i->si_addr >= prot + 4096)) pbt_fail(P, "info", "signal %d reported address %p, expected about %p", signum, i->si_addr, prot + 3000);
    int code = how == NULLP ? SEGV_MAPERR : how == PROT ? SEGV_ACCERR : how == DIV ? FPE_INTDIV : how == QUEUE ? SI_QUEUE : i->si_code;
    if (i->si_code != code) pbt_fail(P, "info", "signal %d has code %d, expected %d", signum, i->si_code, code);
    if (how == QUEUE && i->si_value.sival_int != val) pbt_fail(P, "info", "signal %d has value %d, expected %d", signum, i->si_value.sival_int, val);
}
static void check_mask(const sigset_t* want, const char* when)
{
    sigset_t m;
    pthread_sigmask(SIG_BLOCK, NULL, &m);
    for (int s = 1; s < NSIG; ++s) if (s != 32 && s != 33 && sigismember(&m, s) != sigismember(want, s)) pbt_fail(P, "mask", "%s: signal %d is %sblocked", when, s, sigismember(&m, s) ? "" : "not ");
}
static void check_disp(void)
{
    for (int i = 0; i < NS; ++i) {
        struct sigaction a;
        sigaction(sigs[i], NULL, &a);
        bool mine = a.sa_sigaction == own_handler;
        if (mine == acquired[i]) pbt_fail(P, "disposition", "signal %d is %s, but has %s handler", sigs[i], acquired[i] ? "acquired" : "released", mine ? "the program's" : "another");
        if (mine && (!(a.sa_flags & SA_SIGINFO) || !!(a.sa_flags & SA_RESTART) != (i & 1) || sigismember(&a.sa_mask, SIGURG) != (i > 3)))
            pbt_fail(P, "disposition", "signal %d has flags %#x and %s mask after release", sigs[i], a.sa_flags, sigismember(&a.sa_mask, SIGURG) ? "a" : "no");
    }
}

static __thread volatile int tcur, trec, texp, thow, tval;
static volatile int nabort;
__attribute__((noinline)) static void run_tx(int t, struct step* s)
{
    static __thread volatile int i;
    static __thread sigset_t mask;
    pthread_sigmask(SIG_BLOCK, NULL, &mask);
    tcur = -1; trec = 0; texp = -1;
    picotm_begin
        ++tcur;
        if (tcur >= s->natt) pbt_fail(P, "retries", "thread %d: transaction executed too often", t);
        check_mask(&mask, "in the transaction");
        for (int v = 0; v < NV; ++v) if (var[v] != model[v]) pbt_fail(P, "memory", "thread %d attempt %d: variable %d is %llu at the start, expected %llu", t, tcur, v, (unsigned long long)var[v], (unsigned long long)model[v]);
        memcpy(view, model, sizeof view);
        struct attempt* a = &s->att[tcur];
        for (i = 0; i <= a->n; ++i) {
            if (i == a->pos && a->how != NOSIG) {
                int k = a->sig, sg = sigs[k];
                int n = nontx_calls, o = own_calls;
                thow = a->how; tval = a->a[0].val;
                if (acquired[k] && added[t][k] == 1) { pbt_trace(P, "[signal %d] ", sg); texp = sg; }
                else pbt_trace(P, "[signal %d, %s] ", sg, acquired[k] ? "not added" : "not acquired");
                cause(a->how, sg, a->a[0].val);
                if (texp >= 0) pbt_fail(P, "ignored", "thread %d: the transaction went on after signal %d", t, sg);
                int wn = acquired[k] && hasnontx[k], wo = !acquired[k];
                if (nontx_calls - n != wn || own_calls - o != wo) pbt_fail(P, "handler", "thread %d: signal %d in a transaction called the non-transactional handler %d times and the program's %d times", t, sg, nontx_calls - n, own_calls - o);
            }
            if (i == a->n) break;
            static __thread uint64_t w, r;
            unsigned v = a->a[i].v;
            w = a->a[i].val;
            switch (a->a[i].k) {
            case 0: store_tx(var + v, &w, 8); view[v] = w; break;
            case 1:
                load_tx(var + v, &r, 8);
                if (r != view[v]) pbt_fail(P, "memory", "thread %d: loaded %llu, expected %llu", t, (unsigned long long)r, (unsigned long long)view[v]);
                break;
            case 2: privatize_tx(var + v, 8, PICOTM_TM_PRIVATIZE_LOADSTORE); var[v] = w; view[v] = w; break;
            case 3: { void* m = malloc_tx(w % 100 + 1); memset(m, 1, w % 100 + 1); break; }
            case 4: if (!picotm_is_irrevocable()) { store_tx(var + v, &w, 8); view[v] = w; } break;
            }
        }
    picotm_commit
        trec = 1;
        check_mask(&mask, "in recovery");
        if (texp < 0) pbt_fail(P, "recovery", "thread %d: unexpected recovery, status %d", t, picotm_error_status());
        if (picotm_error_status() != PICOTM_SIGINFO_T) pbt_fail(P, "status", "thread %d: recovery from a signal with status %d", t, picotm_error_status());
        if (picotm_error_is_non_recoverable()) pbt_fail(P, "status", "thread %d: error is not recoverable", t);
        check_info(picotm_error_as_siginfo_t(), thow, texp, tval);
        for (int v = 0; v < NV; ++v) if (var[v] != model[v]) pbt_fail(P, "memory", "thread %d attempt %d: variable %d is %llu after a signal, expected %llu", t, tcur, v, (unsigned long long)var[v], (unsigned long long)model[v]);
        ++nabort;
        texp = -1;
        if (tcur + 1 < s->natt) { trec = 0; picotm_restart(); }
    picotm_end
    check_mask(&mask, "after the transaction");
    if (!trec) memcpy(model, view, sizeof view);
    for (int v = 0; v < NV; ++v) if (var[v] != model[v]) pbt_fail(P, "memory", "thread %d: variable %d is %llu after the transaction, expected %llu", t, v, (unsigned long long)var[v], (unsigned long long)model[v]);
}
/* a signal that is not recoverable, in a child process */
__attribute__((noinline)) static int nonrec_child(int how, int sg)
{
    static volatile int n;
    picotm_begin
        if (n++) return 2;
        uint64_t w = 1;
        store_tx(var, &w, 8);
        cause(how, sg, 5);
        return 3;
    picotm_commit
        if (picotm_error_status() != PICOTM_SIGINFO_T || picotm_error_as_siginfo_t()->si_signo != sg) return 4;
        if (!picotm_error_is_non_recoverable()) return 5;
        return 0;
    picotm_end
    return 6;
}

static void do_step(int t, struct step* s)
{
    struct picotm_error e = PICOTM_ERROR_INITIALIZER;
    int k = s->sig, sg = sigs[k];
    int n = nontx_calls, o = own_calls;
    switch (s->k) {
    case ACQ: {
        static const int bad[] = { -1, 0, SIGKILL, SIGSTOP, NSIG, 1000, 32, INT32_MIN };
        if (s->x % 8 == 0) {
            int b = bad[s->x / 8 % 8];
            pbt_trace(P, "T%d: acquire %d\n", t, b);
            picotm_libc_acquire_proc_signal(b, nontx_handler, &e);
            if (!picotm_error_is_set(&e)) pbt_fail(P, "acquire", "acquiring signal %d succeeded", b);
            if (e.status != PICOTM_ERRNO || e.value.errno_hint != EINVAL) pbt_fail(P, "acquire", "acquiring signal %d reported status %d value %d", b, e.status, e.value.errno_hint);
            break;
        }
        bool nn = acquired[k] ? hasnontx[k] : s->x / 8 % 4 != 0;
        pbt_trace(P, "T%d: acquire %d%s\n", t, sg, nn ? "" : " (no handler)");
        picotm_libc_acquire_proc_signal(sg, nn ? nontx_handler : NULL, &e);
        if (picotm_error_is_set(&e)) pbt_fail(P, "acquire", "acquiring signal %d failed", sg);
        acquired[k] = true; hasnontx[k] = nn;
        break;
    }
    case REL: {
        static const int bad[] = { -1, 0, SIGTERM, NSIG, 1000, INT32_MIN };
        if (s->x % 8 == 0) { picotm_libc_release_proc_signal(bad[s->x / 8 % 6], &e); break; }
        pbt_trace(P, "T%d: release %d\n", t, sg);
        picotm_libc_release_proc_signal(sg, &e);
        if (picotm_error_is_set(&e)) pbt_fail(P, "release", "releasing signal %d failed", sg);
        acquired[k] = false;
        break;
    }
    case ADD: {
        static const int bad[] = { -1, NSIG, 1000, INT32_MIN };
        if (s->x % 16 == 0) {
            int b = bad[s->x / 16 % 4];
            picotm_libc_add_signal(b, true, &e);
            if (!picotm_error_is_set(&e)) pbt_fail(P, "add", "adding signal %d succeeded", b);
            break;
        }
        bool rec = s->x % 16 < 13;
        pbt_trace(P, "T%d: add %d%s\n", t, sg, rec ? "" : ", not recoverable");
        picotm_libc_add_signal(sg, rec, &e);
        if (picotm_error_is_set(&e)) pbt_fail(P, "add", "adding signal %d failed", sg);
        added[t][k] = rec ? 1 : 2;
        break;
    }
    case REM: {
        static const int bad[] = { -1, NSIG, 1000, INT32_MIN };
        if (s->x % 8 == 0) { picotm_libc_remove_signal(bad[s->x / 8 % 4]); break; }
        pbt_trace(P, "T%d: remove %d\n", t, sg);
        picotm_libc_remove_signal(sg);
        added[t][k] = 0;
        break;
    }
    case CLEAR:
        pbt_trace(P, "T%d: clear\n", t);
        picotm_libc_clear_signals();
        memset(added[t], 0, sizeof added[t]);
        break;
    case RAISE:
        pbt_trace(P, "T%d: raise %d outside\n", t, sg);
        cause(s->x & 1 ? QUEUE : RAISE_, sg, s->x);
        if (nontx_calls - n != (acquired[k] && hasnontx[k]) || own_calls - o != !acquired[k])
            pbt_fail(P, "handler", "thread %d: signal %d outside of transactions called the non-transactional handler %d times and the program's %d times", t, sg, nontx_calls - n, own_calls - o);
        if ((!acquired[k] || hasnontx[k]) && (last_sig != sg || ((s->x & 1) && last_val != (int)s->x))) pbt_fail(P, "handler", "handler received signal %d, value %d, expected %d, %d", last_sig, last_val, sg, s->x);
        break;
    case THREND:
        pbt_trace(P, "T%d: release thread state\n", t);
        picotm_release();
        memset(added[t], 0, sizeof added[t]);
        break;
    case TX: {
        /* fit in: an unhandled fault must not happen */
        for (int j = 0; j < s->natt; ++j) {
            struct attempt* a = &s->att[j];
            int f = sig_of(a->how);
            if (f >= 0) a->sig = f;
            if (a->how == NOSIG) { s->natt = j + 1; break; }
            bool ab = acquired[a->sig] && added[t][a->sig] == 1;
            if (added[t][a->sig] == 2 && acquired[a->sig]) {        /* not recoverable */
                if (j) { a->how = NOSIG; s->natt = j + 1; break; }
                pbt_trace(P, "T%d: not recoverable: signal %d\n", t, sigs[a->sig]);
                int st; pid_t c = fork();
                if (!c) _exit(nonrec_child(a->how, sigs[a->sig]));
                if (c < 0 || waitpid(c, &st, 0) != c) pbt_inconclusive(P, "fork");
                if (st) pbt_fail(P, "non-recoverable", "a transaction with a signal that is not recoverable ended with %#x", st);
                return;
            }
            if (!ab && f >= 0) { a->how = RAISE_; }
            if (!ab) { s->natt = j + 1; break; }
        }
        pbt_trace(P, "T%d: tx ", t);
        run_tx(t, s);
        pbt_trace(P, "\n");
        break;
    }
    }
    check_disp();
}
static void body(int t)
{
    for (int i = 0; i < prog[t].n; ++i) { mt_point(); do_step(t, &prog[t].s[i]); }
    picotm_release();
}

/* race: transfers between counters; every fault must leave them balanced */
static volatile long committed[4][NV];
static pthread_barrier_t bar;
__attribute__((noinline)) static void race_tx(int t, struct step* s)
{
    static __thread volatile int i, cur;
    cur = -1;
    picotm_begin
        if (++cur > 1000) pbt_fail(P, "retries", "thread %d: no progress", t);
        struct attempt* a = &s->att[cur < s->natt ? cur : s->natt - 1];
        for (i = 0; i <= a->n; ++i) {
            if (i == a->pos && a->how != NOSIG && cur < s->natt) cause(a->how, sigs[a->sig], 0);
            if (i == a->n) break;
            unsigned v = a->a[i].v;
            uint64_t x;
            if (a->a[i].k & 1) { load_tx(var + v, &x, 8); ++x; store_tx(var + v, &x, 8); }
            else { privatize_tx(var + v, 8, PICOTM_TM_PRIVATIZE_LOADSTORE); ++var[v]; }
        }
    picotm_commit
        if (picotm_error_status() != PICOTM_SIGINFO_T) pbt_fail(P, "status", "thread %d: recovery with status %d", t, picotm_error_status());
        ++nabort;
        if (cur + 1 < s->natt) picotm_restart();
        return;
    picotm_end
    struct attempt* a = &s->att[cur < s->natt ? cur : s->natt - 1];
    if (cur < s->natt && a->how != NOSIG) pbt_fail(P, "ignored", "thread %d: signal was ignored", t);
    for (int j = 0; j < a->n; ++j) ++committed[t][a->a[j].v];
}
static void race_body(int t)
{
    struct picotm_error e = PICOTM_ERROR_INITIALIZER;
    pthread_barrier_wait(&bar);
    for (int i = 0; i < NS; ++i) { picotm_libc_add_signal(sigs[i], true, &e); picotm_libc_acquire_proc_signal(sigs[i], nontx_handler, &e); }
    if (picotm_error_is_set(&e)) pbt_fail(P, "acquire", "acquiring signals failed");
    pthread_barrier_wait(&bar);
    for (int i = 0; i < prog[t].n; ++i) race_tx(t, &prog[t].s[i]);
    pthread_barrier_wait(&bar);
    for (int i = 0; i < NS; ++i) picotm_libc_release_proc_signal(sigs[i], &e);
    if (picotm_error_is_set(&e)) pbt_fail(P, "release", "releasing signals failed");
    picotm_release();
}

static void gen_att(struct pbt* p, struct attempt* a, bool last)
{
    a->n = 1 + pbt_draw(p, NACC);
    a->pos = pbt_draw(p, a->n + 1);
    a->how = last && pbt_chance(p, 2, 3) ? NOSIG : 1 + (int)pbt_draw(p, 9);
    a->sig = sig_of(a->how) >= 0 ? sig_of(a->how) : (int)pbt_draw(p, NS);
    for (int i = 0; i < NACC; ++i) { a->a[i].k = pbt_draw(p, 5); a->a[i].v = pbt_draw(p, NV); a->a[i].val = 1 + pbt_draw(p, 1 << 20); }
}
void prop_case(struct pbt* p)
{
    P = p;
    race = !strcmp(pbt_mode, "race");
    if (!prot) {
        prot = mmap(NULL, 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        char b[200]; snprintf(b, sizeof b, "%s/map", pbt_scratch());
        int fd = open(b, O_RDWR | O_CREAT | O_TRUNC, 0600);
        if (fd < 0 || ftruncate(fd, 4096)) pbt_inconclusive(p, "scratch");
        bus = mmap(NULL, 8192, PROT_READ, MAP_SHARED, fd, 0);
        close(fd);
        if (prot == MAP_FAILED || bus == MAP_FAILED) pbt_inconclusive(p, "mmap");
        var = calloc(NV, 8);
    }
    for (int i = 0; i < NS; ++i) {
        struct sigaction a = { .sa_sigaction = own_handler, .sa_flags = SA_SIGINFO | (i & 1 ? SA_RESTART : 0) };
        sigemptyset(&a.sa_mask);
        if (i > 3) sigaddset(&a.sa_mask, SIGURG);
        sigaction(sigs[i], &a, NULL);
    }
    sigset_t m; sigemptyset(&m);
    if (pbt_chance(p, 1, 2)) sigaddset(&m, SIGTERM);
    if (pbt_chance(p, 1, 2)) sigaddset(&m, SIGRTMIN + 5);
    pthread_sigmask(SIG_SETMASK, &m, NULL);
    memset(acquired, 0, sizeof acquired); memset(added, 0, sizeof added);
    for (int i = 0; i < NV; ++i) var[i] = model[i] = i;
    memset((void*)committed, 0, sizeof committed);
    nabort = 0;
    nthreads = race ? 2 + pbt_draw(p, 3) : 1 + pbt_draw(p, MAXT);
    for (int t = 0; t < nthreads; ++t) {
        prog[t].n = race ? 1 + pbt_draw(p, 10) : 2 + pbt_draw(p, MAXSTEP - 1);
        int fav = pbt_draw(p, NS);
        for (int i = 0; i < prog[t].n; ++i) {
            struct step* s = &prog[t].s[i];
            s->k = race ? TX : (int)PBT_W(p, 4, 2, 6, 1, 1, 3, 1, 8);
            if (!race && i < 2) s->k = i ? ADD : ACQ;
            s->sig = pbt_chance(p, 2, 3) ? fav : (int)pbt_draw(p, NS);
            s->x = pbt_draw(p, 256);
            if (s->k != TX) continue;
            s->natt = 1 + pbt_draw(p, NATT);
            for (int j = 0; j < s->natt; ++j) gen_att(p, &s->att[j], j == s->natt - 1);
            for (int j = 0; j < s->natt && !race; ++j) if (pbt_chance(p, 2, 3) && s->att[j].how) { static const int h[NS] = { NULLP, BUS, DIV, ILL, TRAP, RAISE_, QUEUE, QUEUE }; s->att[j].how = h[fav]; s->att[j].sig = fav; }
        }
    }
    int ns = race ? 0 : mt_gen_sched(p, sched, sizeof(sched));
    if (race) {
        pthread_barrier_init(&bar, NULL, nthreads);
        mt_stress(nthreads, race_body);
        pthread_barrier_destroy(&bar);
        for (int v = 0; v < NV; ++v) {
            uint64_t w = v;
            for (int t = 0; t < nthreads; ++t) w += committed[t][v];
            if (var[v] != w) pbt_fail(p, "memory", "counter %d is %llu, expected %llu", v, (unsigned long long)var[v], (unsigned long long)w);
        }
    } else {
        mt_run(nthreads, body, sched, ns);
        struct picotm_error e = PICOTM_ERROR_INITIALIZER;
        for (int i = 0; i < NS; ++i) { picotm_libc_release_proc_signal(sigs[i], &e); acquired[i] = false; }
    }
    check_disp();
    if (nabort) pbt_nontrivial(p);
}
