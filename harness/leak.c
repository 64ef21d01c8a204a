/* R01: repeating a transaction accumulates neither memory nor descriptors. */
#include "pbt.h"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <locale.h>
#include <sys/mman.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <picotm/picotm.h>
#include <picotm/picotm-module.h>
#include <picotm/picotm-tm.h>
#include <picotm/picotm-libc.h>
#include <picotm/errno.h>
#include <picotm/fcntl.h>
#include <picotm/locale.h>
#include <picotm/stdio.h>
#include <picotm/stdlib.h>
#include <picotm/string.h>
#include <picotm/time.h>
#include <picotm/unistd.h>
#include <picotm/sys/socket.h>
#include <picotm/sys/stat.h>
#include <picotm/math.h>
#include <picotm/picotm-txlist.h>
#include <picotm/picotm-txlist-state.h>
#include <picotm/picotm-txmultiset.h>
#include <picotm/picotm-txmultiset-state.h>
#include <picotm/picotm-txqueue.h>
#include <picotm/picotm-txqueue-state.h>
#include <picotm/picotm-txstack.h>
#include <picotm/picotm-txstack-state.h>

const char prop_rule[] =
    "1-3 transactions of 1-10 operations over memory, heap, strings, formatted I/O, files, pipes, FIFOs, devices, sockets, descriptors, directory entries, "
    "working directory, locales, errno, floating-point functions and containers, which end in commit, error, a failing "
    "preparation, conflict or irrevocability, are repeated 96 times by one thread, by two in turn, or by a new thread each "
    "time, with or without others that keep picotm's state. Allocated memory and open descriptors are counted at three "
    "points (other than picotm's records of the address space); if they grew each time, 6200 more repetitions must not keep adding. Non-trivial: at least two operations.";
int prop_timeout_ms = 30000;

/*
 * The harness has its own allocator, so that repeating the same operations uses the same addresses again: picotm keeps
 * records for each part of the address space that has been used, which is not what is counted here.
 */
struct hdr { uint32_t class, off; size_t size; };
static char* arena; static size_t arena_used;
static struct hdr* freel[48]; static struct hdr* freetail[48];   /* in order, so that all addresses are soon seen */
static size_t live;
static volatile char alock;
static void a_lock(void) { while (__atomic_test_and_set(&alock, __ATOMIC_ACQUIRE)) ; }
static void a_unlock(void) { __atomic_clear(&alock, __ATOMIC_RELEASE); }
static void* a_alloc(size_t align, size_t size)
{
    if (align < 16) align = 16;
    size_t need = size + sizeof(struct hdr) + align;
    if (need < size || need > (size_t)1 << 33) { errno = ENOMEM; return NULL; }
    uint32_t c = 5;
    while (((size_t)1 << c) < need) ++c;
    a_lock();
    if (!arena) { arena = mmap(NULL, (size_t)1 << 36, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (arena == MAP_FAILED) abort(); }
    char* m;
    if (freel[c]) { m = (char*)freel[c]; freel[c] = *(struct hdr**)m; }
    else { if (arena_used + ((size_t)1 << c) > (size_t)1 << 36) { a_unlock(); errno = ENOMEM; return NULL; } m = arena + arena_used; arena_used += (size_t)1 << c; }
    live += size;
    a_unlock();
    char* q = (char*)(((uintptr_t)m + sizeof(struct hdr) + align - 1) & ~(uintptr_t)(align - 1));
    struct hdr* h = (struct hdr*)q - 1;
    h->class = c; h->off = q - m; h->size = size;
    return q;
}
/* The memory module's records for parts of the address space have these sizes. They remain, and are not counted. */
static bool record(size_t n) { return n == 8192 || n == 16384; }
void* malloc(size_t n)
{
    void* q = a_alloc(16, n);
    if (q && record(n)) { a_lock(); live -= n; ((struct hdr*)q - 1)->class |= 0x100; a_unlock(); }
    return q;
}
void free(void* q)
{
    if (!q) return;
    struct hdr* h = (struct hdr*)q - 1;
    char* m = (char*)q - h->off;
    a_lock();
    uint32_t c = h->class & 0xff;
    if (c == h->class) live -= h->size;
    *(struct hdr**)m = NULL;
    if (freel[c]) *(struct hdr**)freetail[c] = (struct hdr*)m; else freel[c] = (struct hdr*)m;
    freetail[c] = (struct hdr*)m;
    a_unlock();
}
void* calloc(size_t n, size_t s) { size_t t; if (__builtin_mul_overflow(n, s, &t)) { errno = ENOMEM; return NULL; } void* q = a_alloc(16, t); if (q) memset(q, 0, t); return q; }
void* realloc(void* q, size_t n)
{
    if (!q) return malloc(n);
    struct hdr* h = (struct hdr*)q - 1;
    if (h->class < 0x100 && h->off + n <= (size_t)1 << h->class) { a_lock(); live += n - h->size; h->size = n; a_unlock(); return q; }
    void* r = malloc(n);
    if (r) { memcpy(r, q, h->size < n ? h->size : n); free(q); }
    return r;
}
int posix_memalign(void** q, size_t a, size_t n) { *q = a_alloc(a, n); return *q ? 0 : ENOMEM; }
void* aligned_alloc(size_t a, size_t n) { return a_alloc(a, n); }
void* memalign(size_t a, size_t n) { return a_alloc(a, n); }
void* valloc(size_t n) { return a_alloc(4096, n); }
void* pvalloc(size_t n) { return a_alloc(4096, n); }
size_t malloc_usable_size(void* q) { return q ? ((struct hdr*)q - 1)->size : 0; }

enum { MAXOPS = 10, MAXTX = 3, NV = 40, NP = 4, NI = 4, NFD = 4 };
enum { Q_ST, Q_LD, Q_PRIV, Q_TMP, Q_HEAP, Q_REALLOC, Q_DUP, Q_WRITE, Q_PWRITE, Q_READ, Q_PREAD, Q_SEEK, Q_FSTAT, Q_FSYNC, Q_FCNTL, Q_OPENCL, Q_OPEN, Q_DUPFD, Q_PIPEWR, Q_SEND, Q_PIPE, Q_SOCK,
       Q_CWD, Q_CWDBUF, Q_CHDIR, Q_STAT, Q_CHMOD, Q_LOC, Q_LOCUSE, Q_SETLOC, Q_ERRNO, Q_MATH, Q_FMT, Q_SCAN, Q_TIME, Q_SORT, Q_STR, Q_LIST, Q_MSET, Q_QUEUE, Q_STACK, Q_EVENT, Q_TEMP, Q_SETFD, Q_FCHMOD, Q_LINK, Q_FIFO, Q_NODE, Q_FIFOIO, Q_DEV, Q_SOCKNB, Q_MKDIR, Q_MKDTEMP, Q_CREAT, Q_FAIL, Q_NK };
static const char* const name[] = { "store", "load", "privatize", "malloc-free", "malloc/free", "realloc", "strdup/free", "write", "pwrite", "read", "pread", "lseek", "fstat", "fsync", "fcntl", "open-close", "open/close", "dup-close", "write-pipe", "send", "pipe-close", "socket-close",
    "getcwd-alloc", "getcwd", "chdir", "stat", "chmod", "locale-free", "locale-use", "setlocale", "errno", "sqrt", "snprintf", "sscanf", "strftime", "qsort", "strcpy", "list", "multiset", "queue", "stack", "event", "mkstemp-close", "setfd",
    "fchmod", "link-unlink", "mkfifo-unlink", "mknod-unlink", "fifo-write", "device-write", "socket-setfl", "mkdir", "mkdtemp", "creat", "fail" };
enum { E_COMMIT, E_ERROR, E_PREP, E_CONFLICT, E_IRREV, E_MIDIRREV };
struct op { int k; unsigned a, b; };
static struct { int n, end; struct op op[MAXOPS]; } tx[MAXTX];
static int ntx;
static struct pbt* P;

static char base[300], path[400], dir2[400];
static uint64_t var[NV];
static void* ptr[NP];
static int fdslot = -1, ffd[NFD], pfd[2], sfd[2];
static char text[3][64], wbuf[8192];
struct item { int key; struct txlist_entry l; struct txmultiset_entry m; struct txqueue_entry q; struct txstack_entry s; };
static struct item it[NI];
static struct { struct txlist_state l; struct txmultiset_state m; struct txqueue_state q; struct txstack_state s; } st;
static const void* keyof(struct txmultiset_entry* e) { return &((struct item*)((char*)e - offsetof(struct item, m)))->key; }
static int keycmp(const void* a, const void* b) { return (*(const int*)a > *(const int*)b) - (*(const int*)a < *(const int*)b); }
static int cmp(const void* a, const void* b) { return *(const char*)a - *(const char*)b; }
static volatile int ended;      /* the operations of the transaction came to an end in this attempt */
static volatile int tries;

/* a module that fails the preparation on demand */
static __thread volatile int prep_fails;
static __thread unsigned long module; static __thread bool have_module;
static void cb_prep(void* d, int noundo, struct picotm_error* e) { (void)d; (void)noundo; if (prep_fails) picotm_error_set_errno(e, 4711); }
static void cb_event(uint16_t h, uintptr_t t, void* d, struct picotm_error* e) { (void)h; (void)t; (void)d; (void)e; }
static void cb_release(void* d) { (void)d; have_module = false; }
static const struct picotm_module_ops ops = { .prepare_commit = cb_prep, .apply_event = cb_event, .undo_event = cb_event, .release = cb_release };
static void need_module(void)
{
    if (have_module) return;
    struct picotm_error e = PICOTM_ERROR_INITIALIZER;
    module = picotm_register_module(&ops, NULL, &e);
    if (picotm_error_is_set(&e)) abort();
    have_module = true;
}

static void operation(struct op* o)
{
    static uint64_t x; static int i; static char tmp[400]; static void* q; static struct stat sb; static int pp[2]; static size_t n;
    switch (o->k) {
    case Q_ST: x = o->b; store_tx((char*)&var[o->a % (NV - 2)] + o->b % 8, &x, 1 + o->a % 8); break;
    case Q_LD: load_tx(&var[o->a % (NV - 2)], &x, 8); break;
    case Q_PRIV: privatize_tx(&var[o->a % (NV - 8)], 8 * (1 + o->b % 8), o->b & 8 ? PICOTM_TM_PRIVATIZE_LOADSTORE : PICOTM_TM_PRIVATIZE_LOAD); break;
    case Q_TMP: q = o->b & 1 ? malloc_tx(1 + o->a % 300) : calloc_tx(1 + o->a % 30, 4); store_tx(q, &x, 1); free_tx(q); break;
    case Q_HEAP: q = load_ptr_tx(&ptr[o->a % NP]);
        if (q) { free_tx(q); q = NULL; } else if (o->b & 1) q = malloc_tx(1 + o->b); else { privatize_tx(&q, sizeof q, PICOTM_TM_PRIVATIZE_LOADSTORE); q = NULL; posix_memalign_tx(&q, 16u << o->b % 4, 1 + o->b); }
        store_ptr_tx(&ptr[o->a % NP], q); break;
    case Q_REALLOC: q = load_ptr_tx(&ptr[o->a % NP]); q = realloc_tx(q, 1 + o->b % 200); store_ptr_tx(&ptr[o->a % NP], q); break;
    case Q_DUP: q = load_ptr_tx(&ptr[o->a % NP]); if (q) { free_tx(q); q = NULL; } else q = o->b & 1 ? strdup_tx(text[1]) : strndup_tx(text[1], o->b % 30); store_ptr_tx(&ptr[o->a % NP], q); break;
    case Q_WRITE: lseek_tx(ffd[o->a % NFD], o->b % 600, SEEK_SET); write_tx(ffd[o->a % NFD], wbuf, o->b % 9 ? o->b % 40 : 1500); break;
    case Q_PWRITE: pwrite_tx(ffd[o->a % NFD], wbuf, o->b % 9 ? o->b % 40 : 1500, o->b % 5000); break;
    case Q_READ: lseek_tx(ffd[o->a % NFD], o->b % 600, SEEK_SET); read_tx(ffd[o->a % NFD], tmp, o->b % 100); break;
    case Q_PREAD: pread_tx(ffd[o->a % NFD], tmp, o->b % 300, o->b % 5000); break;
    case Q_SEEK: lseek_tx(ffd[o->a % NFD], -(int)(o->b % 10), SEEK_END); break;
    case Q_FSTAT: fstat_tx(ffd[o->a % NFD], &sb); break;
    case Q_FSYNC: fsync_tx(ffd[o->a % NFD]); break;
    case Q_FCNTL: i = fcntl_tx(ffd[o->a % NFD], o->b & 1 ? F_GETFL : F_GETFD); break;
    case Q_OPENCL: snprintf(tmp, sizeof tmp, "%s/g%d", base, o->a % 3); i = open_tx(tmp, O_RDWR); if (i >= 0) { if (o->b & 1) pwrite_tx(i, wbuf, 1 + o->b % 20, 0); if (o->b & 2) read_tx(i, text[2], 4); close_tx(i); } break;
    case Q_OPEN: privatize_tx(&fdslot, sizeof fdslot, PICOTM_TM_PRIVATIZE_LOADSTORE); if (fdslot >= 0) { close_tx(fdslot); fdslot = -1; } else { snprintf(tmp, sizeof tmp, "%s/h%d", base, o->a % 3); fdslot = open_tx(tmp, O_RDWR | (o->b & 1 ? O_CLOEXEC : 0)); } break;
    case Q_DUPFD: i = dup_tx(ffd[o->a % NFD]); if (i >= 0) { if (o->b & 1) write_tx(i, wbuf, 0); close_tx(i); } break;
    case Q_PIPEWR: write_tx(pfd[1], wbuf, 1 + o->b % 64); break;
    case Q_SEND: if (o->a & 1) send_tx(sfd[0], wbuf, 1 + o->b % 64, 0); else write_tx(sfd[0], wbuf, 1 + o->b % 64); break;
    case Q_PIPE: pipe_tx(pp); privatize_tx(pp, sizeof pp, PICOTM_TM_PRIVATIZE_LOAD); if (o->b & 1) write_tx(pp[1], wbuf, 4); close_tx(pp[0]); close_tx(pp[1]); break;
    case Q_SOCK: i = socket_tx(AF_UNIX, SOCK_STREAM, 0); if (i >= 0) close_tx(i); break;
    case Q_CWD: q = getcwd_tx(NULL, 0); if (q) free_tx(q); break;
    case Q_CWDBUF: getcwd_tx(tmp, sizeof tmp); break;
    case Q_CHDIR: chdir_tx(o->a & 1 ? base : dir2); break;
    case Q_STAT: if (o->a & 1) stat_tx(path, &sb); else lstat_tx(o->b & 1 ? path : "g0", &sb); break;
    case Q_CHMOD: chmod_tx(path, 0600 + o->b % 64); break;
    case Q_LOC: { static locale_t l; l = newlocale_tx(LC_ALL_MASK, o->a & 1 ? "C" : "C.UTF-8", 0); if (o->b & 1) { static locale_t m; m = duplocale_tx(l); freelocale_tx(m); } freelocale_tx(l); break; }
    case Q_LOCUSE: { static locale_t l; l = newlocale_tx(LC_ALL_MASK, "C", 0); uselocale_tx(l); uselocale_tx(LC_GLOBAL_LOCALE); freelocale_tx(l); break; }
    case Q_SETLOC: setlocale_tx(o->a & 1 ? LC_NUMERIC : LC_ALL, o->b & 1 ? "C" : "C.UTF-8"); break;
    case Q_ERRNO: errno_tx = o->a; break;
    case Q_MATH: { static volatile double d; d = sqrt_tx((double)o->a - 100); d = pow_tx(1e300, 1 + o->b % 2); break; }
    case Q_FMT: snprintf_tx(text[0], sizeof text[0], "%d %s %.*f", (int)o->a, "hello", (int)(o->b % 20), 1e9); break;
    case Q_SCAN: { static int a, b; sscanf_tx("12 word 7", "%d %63s %d", &a, text[0], &b); break; }
    case Q_TIME: { static struct tm t; static time_t tt = 86400 * 300; static struct tm c = { .tm_year = 100, .tm_mday = 3 }; strftime_tx(text[0], 60, "%A %d %B", &c); (void)tt; (void)t; break; }
    case Q_SORT: qsort_tx(text[2], 40, 1, cmp); break;
    case Q_STR: n = strlen_tx(text[1]); strcpy_tx(text[0], text[1]); memmove_tx(text[0] + 1, text[0], 20); break;
    case Q_LIST: { struct txlist* l = txlist_of_state_tx(&st.l); i = o->a % NI; n = txlist_size_tx(l); if (n) txlist_pop_front_tx(l); else txlist_push_back_tx(l, &it[i].l); break; }
    case Q_MSET: { struct txmultiset* l = txmultiset_of_state_tx(&st.m); i = o->a % NI; n = txmultiset_size_tx(l); if (n) txmultiset_erase_tx(l, txmultiset_begin_tx(l)); else txmultiset_insert_tx(l, &it[i].m); break; }
    case Q_QUEUE: { struct txqueue* l = txqueue_of_state_tx(&st.q); i = o->a % NI; n = txqueue_size_tx(l); if (n) txqueue_pop_tx(l); else txqueue_push_tx(l, &it[i].q); break; }
    case Q_STACK: { struct txstack* l = txstack_of_state_tx(&st.s); i = o->a % NI; n = txstack_size_tx(l); if (n) txstack_pop_tx(l); else txstack_push_tx(l, &it[i].s); break; }
    case Q_EVENT: { struct picotm_error e = PICOTM_ERROR_INITIALIZER; for (i = 0; i < (int)(1 + o->b % 40); ++i) picotm_append_event(module, o->a, o->b, &e); break; }
    case Q_TEMP: { static char t[400]; snprintf(t, sizeof t, "%s/tmpXXXXXX", base); i = mkstemp_tx(t); if (i >= 0) { unlink_tx(t); close_tx(i); } break; }
    case Q_FCHMOD: fchmod_tx(ffd[o->a % NFD], 0600 + o->b % 64); break;
    case Q_LINK: snprintf(tmp, sizeof tmp, "%s/l%d", base, o->a % 3); link_tx(path, tmp); unlink_tx(tmp); break;
    case Q_FIFO: snprintf(tmp, sizeof tmp, "%s/p%d", base, o->a % 3); mkfifo_tx(tmp, 0600); unlink_tx(tmp); break;
    case Q_NODE: snprintf(tmp, sizeof tmp, "%s/n%d", base, o->a % 3); mknod_tx(tmp, S_IFREG | 0600, 0); unlink_tx(tmp); break;
    case Q_FIFOIO: snprintf(tmp, sizeof tmp, "%s/fifo", base); i = open_tx(tmp, O_RDWR | O_NONBLOCK); if (i >= 0) { write_tx(i, wbuf, 1 + o->b % 100); if (o->a & 1) { static struct stat s2; fstat_tx(i, &s2); } close_tx(i); } break;
    case Q_DEV: i = open_tx("/dev/null", O_RDWR); if (i >= 0) { write_tx(i, wbuf, 1 + o->b % 100); if (o->a & 1) read_tx(i, text[2], 3); close_tx(i); } break;
    case Q_SOCKNB: fcntl_tx(sfd[o->a % 2], F_SETFL, O_NONBLOCK); break;
    case Q_MKDIR: snprintf(tmp, sizeof tmp, "%s/m%d", base, o->a % 2); mkdir_tx(tmp, 0700); break;
    case Q_MKDTEMP: { static char t[400]; snprintf(t, sizeof t, "%s/tmpXXXXXX", base); if (mkdtemp_tx(t)) rmdir(t); break; }
    case Q_CREAT: snprintf(tmp, sizeof tmp, "%s/c%d", base, o->a % 3); i = creat_tx(tmp, 0600); if (i >= 0) { write_tx(i, wbuf, o->b % 50); close_tx(i); } break;
    case Q_FAIL:
        if (picotm_is_irrevocable()) break;     /* a failure would be fatal */
        snprintf(tmp, sizeof tmp, "%s/%s", base, o->b & 1 ? "missing/x" : "d");
        switch (o->a % 13) {
        case 0: mkdir_tx(tmp, 0700); break;
        case 1: open_tx(o->b & 1 ? tmp : "relative/x", O_RDWR); break;
        case 2: chdir_tx(o->b & 1 ? tmp : "relative/x"); break;
        case 3: chmod_tx(o->b & 1 ? tmp : "relative/x", 0600); break;
        case 4: stat_tx(o->b & 1 ? tmp : "relative/x", &sb); break;
        case 5: link_tx(path, tmp); break;
        case 6: unlink_tx(tmp); break;
        case 7: mkfifo_tx(tmp, 0600); break;
        case 8: close_tx(390); break;
        case 9: newlocale_tx(LC_ALL_MASK, "no-such-locale", 0); break;
        case 10: setlocale_tx(LC_ALL, "no-such-locale"); break;
        case 11: mkdtemp_tx(tmp); break;
        case 12: lseek_tx(ffd[0], -5, SEEK_SET); break;
        }
        break;
    case Q_SETFD: fcntl_tx(ffd[o->a % NFD], F_SETFD, o->b & 1); break;
    }
}



static __attribute__((noinline)) void run_tx(int t)
{
    static volatile int i, failed;
    prep_fails = 0;
    need_module();
    ended = tries = failed = 0;
    picotm_begin
        tries = tries + 1;
        bool noundo = picotm_is_irrevocable();
        if (tx[t].end == E_IRREV && !noundo) picotm_irrevocable();
        for (i = 0; i < tx[t].n; ++i) { if (tx[t].end == E_MIDIRREV && i == tx[t].n / 2) picotm_irrevocable(); operation(&tx[t].op[i]); }
        noundo = picotm_is_irrevocable();
        ended = 1;
        if (!noundo) switch (tx[t].end) {
        case E_ERROR: failed = 1; picotm_recover_from_errno(4711); break;
        case E_PREP: failed = 1; prep_fails = 1; break;
        case E_CONFLICT: if (tries < 3) picotm_resolve_conflict(NULL); break;
        }
    picotm_commit
        if (picotm_error_is_non_recoverable()) pbt_fail(P, "error", "transaction %d: non-recoverable error of status %d", t, (int)picotm_error_status());
        if (!failed && !(picotm_error_status() == PICOTM_ERRNO || picotm_error_status() == PICOTM_ERROR_CODE)) pbt_fail(P, "error", "transaction %d: unexpected recovery with status %d", t, (int)picotm_error_status());
        prep_fails = 0;
    picotm_end

}
static void drain(void)
{
    char b[8192];
    while (read(pfd[0], b, sizeof b) > 0) ; while (read(sfd[1], b, sizeof b) > 0) ;
    for (int i = 0; i < 2; ++i) { snprintf(b, 400, "%s/m%d", base, i); rmdir(b); }
}
static void repeat(void) { for (int t = 0; t < ntx; ++t) { run_tx(t); drain(); } }

/* threads that wait for work */
enum { W_IDLE, W_REPEAT, W_TOUCH, W_QUIT };
static struct wk { pthread_t th; sem_t go, done; volatile int job; } wk[3];
static __attribute__((noinline)) void touch(int i)
{
    picotm_begin
        uint64_t x; load_tx(&var[NV - 1], &x, 8);
        if (i & 1) { lseek_tx(ffd[0], 0, SEEK_CUR); txlist_size_tx(txlist_of_state_tx(&st.l)); errno_tx = 0; }
    picotm_commit
    picotm_end
}
static void* worker(void* a)
{
    struct wk* w = a;
    for (;;) {
        while (sem_wait(&w->go)) ;
        int j = w->job;
        if (j == W_REPEAT) repeat(); else if (j == W_TOUCH) touch(w - wk);
        else { picotm_release(); sem_post(&w->done); return NULL; }
        sem_post(&w->done);
    }
}
static void start(int i) { sem_init(&wk[i].go, 0, 0); sem_init(&wk[i].done, 0, 0); if (pthread_create(&wk[i].th, NULL, worker, &wk[i])) abort(); }
static void job(int i, int j) { wk[i].job = j; sem_post(&wk[i].go); while (sem_wait(&wk[i].done)) ; if (j == W_QUIT) pthread_join(wk[i].th, NULL); }

static size_t memory(void) { return live; }
static int descriptors(void) { int n = 0; for (int i = 0; i < 400; ++i) if (fcntl(i, F_GETFD) >= 0) ++n; return n; }

static int how;     /* 0 one thread, 1 two in turn, 2 new threads, 3 new threads beside another */
static int turn;
static void rep(void)
{
    switch (how) {
    case 0: job(0, W_REPEAT); break;
    case 1: job(turn++ & 1, W_REPEAT); break;
    default: start(0); job(0, W_REPEAT); job(0, W_QUIT); break;
    }
}

void prop_init(void)
{
    snprintf(base, sizeof base, "%s", pbt_scratch());
    snprintf(dir2, sizeof dir2, "%s/d", base);
    mkdir(dir2, 0700);
    snprintf(path, sizeof path, "%s/f0", base);
    memset(wbuf, 'w', sizeof wbuf);
    for (int i = 0; i < NI; ++i) it[i].key = i % 3;
    { char b[400]; snprintf(b, sizeof b, "%s/fifo", base); if (mkfifo(b, 0600)) abort(); }
    for (int k = 0; k < 3; ++k) {
        char b[400];
        snprintf(b, sizeof b, "%s/g%d", base, k); close(open(b, O_RDWR | O_CREAT, 0600));
        snprintf(b, sizeof b, "%s/h%d", base, k); close(open(b, O_RDWR | O_CREAT, 0600));
    }
}

static __attribute__((noinline)) void clean_up(void)
{
    picotm_begin
        struct txlist* l = txlist_of_state_tx(&st.l); while (txlist_size_tx(l)) txlist_pop_front_tx(l);
        struct txmultiset* m = txmultiset_of_state_tx(&st.m); while (txmultiset_size_tx(m)) txmultiset_erase_tx(m, txmultiset_begin_tx(m));
        struct txqueue* q = txqueue_of_state_tx(&st.q); while (txqueue_size_tx(q)) txqueue_pop_tx(q);
        struct txstack* s = txstack_of_state_tx(&st.s); while (txstack_size_tx(s)) txstack_pop_tx(s);
    picotm_commit
    picotm_end
    picotm_release();
}

void prop_case(struct pbt* p)
{
    P = p;
    ntx = 1 + pbt_draw(p, MAXTX);
    how = PBT_W(p, 3, 1, 2, 1);
    pbt_trace(p, "%s:", (const char*[]){ "one thread", "two threads in turn", "a new thread each time", "a new thread each time, beside another" }[how]);
    int total = 0;
    bool focus = pbt_chance(p, 1, 3); unsigned ff = pbt_draw(p, Q_NK);
    for (int t = 0; t < ntx; ++t) {
        tx[t].n = 1 + pbt_len(p, MAXOPS - 1);
        tx[t].end = PBT_W(p, 4, 3, 1, 2, 1, 1);
        pbt_trace(p, " {");
        for (int i = 0; i < tx[t].n; ++i) {
            struct op* o = &tx[t].op[i];
            o->k = focus && pbt_chance(p, 1, 2) ? (ff + pbt_draw(p, 4)) % Q_NK : pbt_draw(p, Q_NK);
            o->a = pbt_draw(p, 200); o->b = pbt_draw(p, 5000);
            pbt_trace(p, " %s(%u,%u)", name[o->k], o->a, o->b);
            ++total;
        }
        pbt_trace(p, " => %s }", (const char*[]){ "commit", "error", "failing preparation", "conflict", "irrevocable", "becomes irrevocable" }[tx[t].end]);
    }
    /* the starting state */
    memset(var, 0, sizeof var); memset(ptr, 0, sizeof ptr);
    memset(text, 'x', sizeof text); text[0][63] = text[1][40] = text[2][63] = 0;
    fdslot = -1; turn = 0;
    memset(&st, 0, sizeof st);
    txlist_state_init(&st.l); txmultiset_state_init(&st.m, keyof, keycmp); txqueue_state_init(&st.q); txstack_state_init(&st.s);
    for (int i = 0; i < NI; ++i) { txlist_entry_init(&it[i].l); txmultiset_entry_init(&it[i].m); txqueue_entry_init(&it[i].q); txstack_entry_init(&it[i].s); }
    for (int i = 0; i < NFD; ++i) { char b[400]; snprintf(b, sizeof b, "%s/f%d", base, i); ffd[i] = open(b, O_RDWR | O_CREAT | O_TRUNC, 0600); if (ffd[i] < 0 || write(ffd[i], wbuf, 6000) != 6000) abort(); }
    if (pipe2(pfd, O_NONBLOCK) || socketpair(AF_UNIX, SOCK_STREAM, 0, sfd)) abort();
    fcntl(sfd[1], F_SETFL, O_NONBLOCK);
    if (chdir(base)) abort();

    if (how == 3) { start(2); job(2, W_TOUCH); start(1); job(1, W_TOUCH); }
    else if (how < 2) { start(0); if (how == 1) start(1); }
    enum { POINTS = 6, FIRST = 3 };
    size_t m[POINTS]; int d[POINTS];
    static const int upto[POINTS] = { 24, 48, 96, 700, 2100, 6300 };
    bool mem = true, des = true;
    for (int k = 0, n = 0; k < POINTS && (mem || des); ++k) {
        if (k == FIRST) pbt_label(p, "confirming");
        for (; n < upto[k]; ++n) rep();
        m[k] = memory(); d[k] = descriptors();
        if (k == 0) continue;
        int by = upto[k] - upto[k - 1];
        if (m[k] < m[k - 1] + (k < FIRST ? 1 : by / 2)) mem = false;
        if (d[k] <= d[k - 1] + (k < FIRST ? 0 : 2)) des = false;
        if (des && d[k] > 300) { pbt_fail(p, "descriptors", "%d descriptors are open after %d repetitions, %d after %d", d[k], upto[k], d[k - 1], upto[k - 1]); }
    }
    if (mem) pbt_fail(p, "memory", "%zu bytes allocated after 24 repetitions, %zu after 48, %zu after 96, %zu after 700, %zu after 2100, %zu after 6300", m[0], m[1], m[2], m[3], m[4], m[5]);
    if (des) pbt_fail(p, "descriptors", "%d descriptors open after 24 repetitions, %d after 48, %d after 96, %d after 700, %d after 2100, %d after 6300", d[0], d[1], d[2], d[3], d[4], d[5]);
    if (how < 2) { job(0, W_QUIT); if (how == 1) job(1, W_QUIT); }
    if (how == 3) { job(1, W_QUIT); job(2, W_QUIT); }
    clean_up();
    for (int i = 0; i < NP; ++i) free(ptr[i]);
    if (fdslot >= 0) close(fdslot);
    for (int i = 0; i < NFD; ++i) close(ffd[i]);
    for (int i = 0; i < 2; ++i) { close(pfd[i]); close(sfd[i]); }
    if (total > 1) pbt_nontrivial(p);
}
