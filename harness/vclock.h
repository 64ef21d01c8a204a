/* Ages transactions without waiting: a per-thread offset on the clock the lock owners use.
 * Link with -Wl,--wrap=clock_gettime,--wrap=pthread_cond_timedwait */
#pragma once
#include <pthread.h>
#include <time.h>
static __thread volatile int vclock_off;        /* seconds */
#ifdef MT_FINE
#define vclock_waits mt_waits
#else
static volatile long vclock_waits;              /* timed waits */
#endif
int __real_clock_gettime(clockid_t c, struct timespec* ts);
int __real_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts);
int __wrap_clock_gettime(clockid_t c, struct timespec* ts);
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts);
int __wrap_clock_gettime(clockid_t c, struct timespec* ts)
{
    int r = __real_clock_gettime(c, ts);
    if (!r) ts->tv_sec += vclock_off;
    return r;
}
#ifndef MT_FINE
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts)
{
    struct timespec t = *ts;
    t.tv_sec -= vclock_off;
    __atomic_add_fetch(&vclock_waits, 1, __ATOMIC_RELAXED);
    return __real_pthread_cond_timedwait(c, m, &t);
}
#endif
