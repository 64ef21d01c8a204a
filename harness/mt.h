/* Operation-granularity scheduler for generated multi-thread histories.
 *
 * Threads run one at a time. At each mt_point() the running thread hands
 * control back and the controller picks the next one from the generated
 * schedule. A thread that blocks inside the code under test (sleeping without
 * having reached an mt_point) is noticed by its kernel state and others go on.
 */
#pragma once
#include "pbt.h"
#include <pthread.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <time.h>
#include <fcntl.h>
#include <semaphore.h>
#include <errno.h>
#include <string.h>
#include <stdint.h>

#ifndef MT_MAX
#define MT_MAX 16
#endif

#ifdef MT_FINE
enum { FINE = 1 };
#else
enum { FINE = 0 };
#endif
enum { MT_NEW, MT_READY, MT_RUNNING, MT_BLOCKED, MT_DONE };

struct mt_thread {
    pthread_t th;
    volatile int state;
    volatile long tid;
    sem_t go;
    int statfd;
    void (*fn)(int);
};

static struct mt_thread mt_thr[MT_MAX];
static int mt_n;
static pthread_mutex_t mt_lock = PTHREAD_MUTEX_INITIALIZER;
static sem_t mt_event;
static __thread int mt_self = -1;
static volatile int mt_free_run;        /* no control: threads run concurrently */
static volatile uint64_t mt_clock;      /* global order of recorded events */

static uint64_t mt_tick(void) { return __atomic_add_fetch(&mt_clock, 1, __ATOMIC_SEQ_CST); }

static void mt_sem_wait(sem_t* s) { while (sem_wait(s)) ; }

static void mt_switch(void)
{
    int e = errno;
    struct mt_thread* t = &mt_thr[mt_self];
    __atomic_store_n(&t->state, MT_READY, __ATOMIC_SEQ_CST);
    sem_post(&mt_event);
    mt_sem_wait(&t->go);
    errno = e;
}

/* Fine mode (variant "fine", -DMT_FINE): the code under test is compiled with a call at every
 * basic block and before every atomic operation. mt_stress() then runs one thread at a time, too:
 * the generated schedule says after how many blocks to switch to which thread. Blocking on mutexes,
 * locks and condition variables, and the time-outs of the latter, are simulated. */
static volatile int mt_fine;
static volatile long mt_waits;
#ifdef MT_FINE
#include <errno.h>
static struct pbt* P;
static volatile long mt_budget;
static volatile int mt_forced, mt_patience;
static struct { unsigned run; uint8_t who; } mt_sw[64];
static volatile int mt_nsw, mt_isw;
static struct { pthread_cond_t* volatile c; volatile int sig; } mt_cw[MT_MAX];

void __sanitizer_cov_trace_pc(void);
void __sanitizer_cov_trace_pc(void) { if (mt_fine && mt_self >= 0 && --mt_budget < 0) mt_switch(); }

static void mt_block(void) { mt_forced = 1; mt_switch(); }

int __real_pthread_mutex_lock(pthread_mutex_t* m);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
    if (!mt_fine || mt_self < 0) return __real_pthread_mutex_lock(m);
    int r;
    while ((r = pthread_mutex_trylock(m)) == EBUSY) mt_block();
    return r;
}
int __real_pthread_rwlock_rdlock(pthread_rwlock_t* m);
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m);
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
    if (!mt_fine || mt_self < 0) return __real_pthread_rwlock_rdlock(m);
    int r;
    while ((r = pthread_rwlock_tryrdlock(m)) == EBUSY) mt_block();
    return r;
}
int __real_pthread_rwlock_wrlock(pthread_rwlock_t* m);
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m);
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
    if (!mt_fine || mt_self < 0) return __real_pthread_rwlock_wrlock(m);
    int r;
    while ((r = pthread_rwlock_trywrlock(m)) == EBUSY) mt_block();
    return r;
}
int __real_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m);
int __real_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts);
int __real_pthread_cond_signal(pthread_cond_t* c);
int __real_pthread_cond_broadcast(pthread_cond_t* c);
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m);
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts);
int __wrap_pthread_cond_signal(pthread_cond_t* c);
int __wrap_pthread_cond_broadcast(pthread_cond_t* c);
static int mt_cond_wait(pthread_cond_t* c, pthread_mutex_t* m, int rounds)
{
    mt_cw[mt_self].sig = 0;
    mt_cw[mt_self].c = c;
    pthread_mutex_unlock(m);
    do mt_block(); while (!mt_cw[mt_self].sig && (rounds < 0 || rounds-- > 0));
    mt_cw[mt_self].c = NULL;
    __wrap_pthread_mutex_lock(m);
    return mt_cw[mt_self].sig ? 0 : ETIMEDOUT;
}
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    return mt_fine && mt_self >= 0 ? mt_cond_wait(c, m, -1) : __real_pthread_cond_wait(c, m);
}
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts)
{
    ++mt_waits;
    return mt_fine && mt_self >= 0 ? mt_cond_wait(c, m, mt_patience) : __real_pthread_cond_timedwait(c, m, ts);
}
static int mt_cond_signal(pthread_cond_t* c, bool all)
{
    for (int i = 0; i < MT_MAX; ++i)
        if (mt_cw[i].c == c && !mt_cw[i].sig) { mt_cw[i].sig = 1; if (!all) break; }
    return 0;
}
int __wrap_pthread_cond_signal(pthread_cond_t* c)
{
    return mt_fine && mt_self >= 0 ? mt_cond_signal(c, false) : __real_pthread_cond_signal(c);
}
int __wrap_pthread_cond_broadcast(pthread_cond_t* c)
{
    return mt_fine && mt_self >= 0 ? mt_cond_signal(c, true) : __real_pthread_cond_broadcast(c);
}

static volatile int mt_bar_n, mt_bar_gen;
__attribute__((unused)) static int mt_barrier(void)
{
    int g = mt_bar_gen;
    if (++mt_bar_n == mt_n) { mt_bar_n = 0; ++mt_bar_gen; }
    else while (mt_bar_gen == g) mt_block();
    return 0;
}
#define pthread_barrier_wait(b) mt_barrier()
#define sched_yield() mt_block()
#endif

/* C08: a transaction conflicts only with others that are active at the time. Each attempt of a transaction calls
 * mt_attempt(), each end mt_finished(). */
static volatile int mt_active[MT_MAX], mt_alone[MT_MAX], mt_company[MT_MAX], mt_left;
static struct pbt* mt_case;
static bool mt_lone(void)
{
    static int on = -1;
    if (on < 0) on = getenv("MT_LONE") != NULL;
    return on;
}
static void mt_mark(void)
{
    int a = 1;
    for (int i = 0; i < mt_n; ++i) if (i != mt_self && mt_active[i]) a = 0;
    mt_alone[mt_self] = a;
    if (!a) mt_company[mt_self] = 1;
    else if (mt_company[mt_self] && mt_active[mt_self]) mt_left = 1;     /* the other one finished */
}
__attribute__((unused)) static void mt_attempt(struct pbt* p, bool again, bool irrevocable)
{
    if (mt_self < 0 || (mt_free_run && !mt_fine) || !mt_lone()) return;
    if (again && mt_alone[mt_self] && !irrevocable) pbt_fail(p, "conflict", "thread %d: a transaction was restarted while it was the only active one", mt_self);
    for (int i = 0; i < mt_n; ++i) if (i != mt_self) { mt_alone[i] = 0; mt_company[i] = 1; }
    mt_active[mt_self] = 1;
    mt_company[mt_self] = 0;
    mt_case = p;
    mt_mark();
}
__attribute__((unused)) static void mt_nontrivial(struct pbt* p) { if (!mt_lone()) pbt_nontrivial(p); }
#define pbt_nontrivial(p) mt_nontrivial(p)
__attribute__((unused)) static void mt_finished(void) { if (mt_self >= 0) mt_active[mt_self] = 0; }

__attribute__((unused)) static void mt_point(void)
{
#ifdef MT_FINE
    if (mt_fine && mt_self >= 0) { __sanitizer_cov_trace_pc(); return; }
#endif
    if (mt_self < 0 || mt_free_run) return;
    mt_switch();
    mt_mark();
}

static void* mt_main(void* arg)
{
    mt_self = (int)(intptr_t)arg;
    struct mt_thread* t = &mt_thr[mt_self];
    t->tid = syscall(SYS_gettid);
    if (!mt_free_run || mt_fine) mt_switch();
    t->fn(mt_self);
    __atomic_store_n(&t->state, MT_DONE, __ATOMIC_SEQ_CST);
    sem_post(&mt_event);
    return NULL;
}

static bool mt_sleeping(struct mt_thread* t)
{
    char path[64], b[256];
    snprintf(path, sizeof(path), "/proc/self/task/%ld/stat", t->tid);
    int fd = open(path, O_RDONLY | O_CLOEXEC);
    if (fd < 0) return false;
    ssize_t r = read(fd, b, sizeof(b) - 1);
    close(fd);
    if (r <= 0) return false;
    b[r] = 0;
    char* s = strrchr(b, ')');
    return s && s[1] && (s[2] == 'S' || s[2] == 'D');
}

/* wait until thread i reaches a point, ends, or sleeps in the code under test */
static void mt_settle(int i)
{
    struct mt_thread* t = &mt_thr[i];
    int asleep = 0;
    for (int n = 0;; ++n) {
        if (__atomic_load_n(&t->state, __ATOMIC_SEQ_CST) != MT_RUNNING) return;
        struct timespec ts;
        clock_gettime(CLOCK_REALTIME, &ts);
        ts.tv_nsec += n < 4 ? 300000 : 1000000;
        if (ts.tv_nsec >= 1000000000) { ts.tv_nsec -= 1000000000; ts.tv_sec++; }
        if (sem_timedwait(&mt_event, &ts) == 0) { asleep = 0; continue; }
        if (__atomic_load_n(&t->state, __ATOMIC_SEQ_CST) != MT_RUNNING) return;
        asleep = mt_sleeping(t) ? asleep + 1 : 0;
        if (asleep >= 3) {
            int e = MT_RUNNING;
            __atomic_compare_exchange_n(&t->state, &e, MT_BLOCKED, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
            return;
        }
    }
}

/* Runs n threads. sched: one choice per step; 0 continues with the same thread, k>0 moves on
 * to the k-th other ready one. Returns the number of steps taken. */
__attribute__((unused))
static int mt_run(int n, void (*fn)(int), const uint8_t* sched, int nsched)
{
    mt_n = n;
    memset((void*)mt_active, 0, sizeof mt_active);
    mt_left = 0;
    mt_free_run = mt_fine;
    sem_init(&mt_event, 0, 0);
    for (int i = 0; i < n; ++i) {
        mt_thr[i].fn = fn;
        mt_thr[i].state = MT_RUNNING;
        sem_init(&mt_thr[i].go, 0, 0);
        if (pthread_create(&mt_thr[i].th, NULL, mt_main, (void*)(intptr_t)i)) abort();
    }
    for (int i = 0; i < n; ++i) mt_settle(i);
    int cur = 0, steps = 0;
    for (;;) {
        int ready[MT_MAX], nr = 0, live = 0;
        for (int k = 0; k < n; ++k) {
            int i = (cur + k) % n, s = __atomic_load_n(&mt_thr[i].state, __ATOMIC_SEQ_CST);
            if (s == MT_READY) ready[nr++] = i;
            if (s != MT_DONE) live++;
        }
        if (!live) break;
        if (!nr) {          /* all live threads are blocked (or just waking up): wait for one */
            struct timespec ts;
            clock_gettime(CLOCK_REALTIME, &ts);
            ts.tv_nsec += 2000000;
            if (ts.tv_nsec >= 1000000000) { ts.tv_nsec -= 1000000000; ts.tv_sec++; }
            sem_timedwait(&mt_event, &ts);
            continue;
        }
        int c = steps < nsched ? sched[steps] : 1;
        ++steps;
#ifdef MT_FINE
        if (mt_fine) {
            if (mt_forced) { mt_forced = 0; c = 1; }
            else if (mt_isw < mt_nsw) { c = mt_sw[mt_isw].who; mt_budget = mt_sw[mt_isw++].run; }
            else { c = 1; mt_budget = 3000; }
        }
#endif
        cur = ready[c % nr];
        __atomic_store_n(&mt_thr[cur].state, MT_RUNNING, __ATOMIC_SEQ_CST);
        sem_post(&mt_thr[cur].go);
        mt_settle(cur);
        /* threads that just got unblocked proceed to their next point */
        for (int i = 0; i < n; ++i) {
            if (i != cur && __atomic_load_n(&mt_thr[i].state, __ATOMIC_SEQ_CST) == MT_BLOCKED && !mt_sleeping(&mt_thr[i])) {
                for (int w = 0; w < 20 && __atomic_load_n(&mt_thr[i].state, __ATOMIC_SEQ_CST) == MT_BLOCKED &&
                     !mt_sleeping(&mt_thr[i]); ++w)
                    usleep(50);
            }
        }
    }
    for (int i = 0; i < n; ++i) {
        pthread_join(mt_thr[i].th, NULL);
        sem_destroy(&mt_thr[i].go);
    }
    sem_destroy(&mt_event);
    if (mt_lone() && mt_left) (pbt_nontrivial)(mt_case);
    return steps;
}

#ifdef MT_FINE
static void mt_gen_fine(struct pbt* p)
{
    mt_patience = pbt_draw(p, 12);
    static const unsigned lim[] = { 6, 30, 200, 1500 };
    unsigned scale = pbt_draw(p, 4);
    mt_nsw = pbt_draw(p, 49);
    mt_isw = 0;
    pbt_trace(p, "schedule (blocks to run, thread after):");
    for (int i = 0; i < mt_nsw; ++i) {
        mt_sw[i].run = pbt_draw(p, lim[pbt_chance(p, 1, 5) ? pbt_draw(p, 4) : scale]);
        mt_sw[i].who = pbt_draw(p, 4);
        pbt_trace(p, " %u+%u", mt_sw[i].who, mt_sw[i].run);
    }
    pbt_trace(p, "; patience %d\n", mt_patience);
}
#endif

/* Runs n threads truly concurrently (or, in the fine mode, under a generated schedule). */
__attribute__((unused))
static void mt_stress(int n, void (*fn)(int))
{
#ifdef MT_FINE
    mt_gen_fine(P);
    memset((void*)mt_cw, 0, sizeof(mt_cw));
    mt_forced = 0;
    mt_waits = 0;
    mt_bar_n = 0;
    mt_fine = 1;
    mt_run(n, fn, NULL, 0);
    mt_fine = 0;
    return;
#endif
    mt_n = n;
    mt_free_run = 1;
    sem_init(&mt_event, 0, 0);
    for (int i = 0; i < n; ++i) {
        mt_thr[i].fn = fn;
        mt_thr[i].state = MT_RUNNING;
        if (pthread_create(&mt_thr[i].th, NULL, mt_main, (void*)(intptr_t)i)) abort();
    }
    for (int i = 0; i < n; ++i) pthread_join(mt_thr[i].th, NULL);
    sem_destroy(&mt_event);
}

/* a schedule: mostly staying with a thread, with switches */
__attribute__((unused))
static int mt_gen_sched(struct pbt* p, uint8_t* s, int max)
{
    int n = pbt_draw(p, max + 1);
    unsigned den = 2 + pbt_draw(p, 4);
    for (int i = 0; i < n; ++i) s[i] = pbt_chance(p, 1, den) ? 1 + pbt_draw(p, 3) : 0;
    return n;
}

/* a small sequence lock protected recorder is not needed: threads run one at a time,
 * and in stress mode histories are per thread */
