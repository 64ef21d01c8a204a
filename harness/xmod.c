/* Transactions across modules. Modes: all (C05: errors raised at generated positions),
 * fault (H02: one allocation or system call fails). */
#define _GNU_SOURCE
#include "pbt.h"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <langinfo.h>
#include <locale.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <unistd.h>
#include <picotm/picotm.h>
#include <picotm/picotm-module.h>
#include <picotm/picotm-tm.h>
#include <picotm/picotm-libc.h>
#include <picotm/errno.h>
#include <picotm/fcntl.h>
#include <picotm/locale.h>
#include <picotm/stdlib.h>
#include <picotm/string.h>
#include <picotm/unistd.h>
#include <picotm/sys/socket.h>
#include <picotm/sys/stat.h>
#include <picotm/math.h>
#include <picotm/picotm-txlist.h>
#include <picotm/picotm-txlist-state.h>
#include <picotm/picotm-txmultiset.h>
#include <picotm/picotm-txmultiset-state.h>
#include <picotm/picotm-txqueue.h>
#include <picotm/picotm-txqueue-state.h>
#include <picotm/picotm-txstack.h>
#include <picotm/picotm-txstack-state.h>

const char prop_rule[] =
    "1-4 transactions of up to 5 attempts with 1-24 operations each on memory, heap, strings, files, new descriptors "
    "(open, dup, pipe, socket, mkstemp), working directory, locale, errno, list, multiset, queue and stack; endings commit, error, conflict, "
    "irrevocability, recovery+restart (mode fault: one allocation or system call of the transaction fails, at a generated "
    "position in its start, its operations or its commit). Oracle: one model of everything, compared within the transaction "
    "and after each commit and roll-back, by the thread and by a transaction of another thread; open descriptors and allocated "
    "memory are accounted for. Non-trivial: an attempt with operations of 3 modules rolled back (fault: the fault took place).";
int prop_timeout_ms = 20000;

enum { NV = 24, NHP = 5, NF = 3, FMAX = 200, NSL = 5, NI = 8, NLOC = 3, NB = 3, BSZ = 48, ATT_MAXOPS = 24 };
enum { LIST, MSET, QUEUE, STACK, NCONT };
struct aop { int k; unsigned a, b, c; };

static void before(void); static void recovery(void); static void after(void);
#define ATT_BEFORE before
#define ATT_RECOVERY recovery
#define ATT_AFTER after
#include "att.h"

/* ---- real state ---- */
static uint64_t* var[NV];
static char* hp[NHP];
static char buf[NB][BSZ] __attribute__((aligned(64)));    /* filled by read_tx */
static int fd[NF];
static char base[300];
struct item { int id, key; struct txlist_entry l; struct txmultiset_entry m; struct txqueue_entry q; struct txstack_entry s; };
static struct item it[NI]; static struct txlist_entry spare;
static struct { struct txlist_state l; struct txmultiset_state m; struct txqueue_state q; struct txstack_state s; } st;

/* ---- model ---- */
enum { S_NONE, S_OPEN, S_DUP, S_PIPE, S_SOCK, S_TEMP };
struct model {
    uint64_t var[NV];
    struct { char* p; unsigned len; unsigned char seed; } hp[NHP];
    char buf[NB][BSZ];
    struct { unsigned char d[FMAX]; int size; int off; int mode; int fdflag; } f[NF];
    struct { int kind, fd, fd2, of, n, off, closed; unsigned char d[FMAX]; int size; } s[NSL];
    int cwd;
    struct { locale_t l; int which, freed; } loc[NLOC]; int cur;     /* cur: -1 global */
    int err;
    int n[NCONT]; int seq[NCONT][NI]; signed char in[NI];            /* container holding the item, -1 none */
};
static struct model com, view;
static unsigned used_modules;
static volatile int nontriv;
static unsigned filegen;

/* ---- faults and accounting ---- */
enum { PH_OFF, PH_BEGIN, PH_OP, PH_COMMIT, PH_UNDO };
static bool faults;
static __thread volatile int phase;
static volatile int fault_at, fault_n, fault_kind, fault_err;     /* kind: 1 allocations, 2 system calls, 3 both */
static volatile int fired, fired_alloc, fired_phase; static const char* volatile fired_what;
static volatile long blocks; static __thread volatile bool counting;

static bool inject(bool alloc, const char* what)
{
    if (!faults || phase == PH_OFF || fired) return false;
    if (!(fault_kind & (alloc ? 1 : 2))) return false;
    if (!alloc && (phase == PH_UNDO || phase == PH_BEGIN)) return false;
    if (++fault_n != fault_at) return false;
    fired = 1; fired_alloc = alloc; fired_phase = phase; fired_what = what;
    static const char* const ph[] = { "", "start", "operation", "commit", "roll-back" };
    bool c = counting; counting = false;
    int ph0 = phase; phase = PH_OFF;
    pbt_trace(P, "[%s fails in %s] ", what, ph[ph0]);
    phase = ph0;
    counting = c;
    errno = alloc ? ENOMEM : fault_err;
    return true;
}
#define COUNT(n) (__atomic_add_fetch(&blocks, n, __ATOMIC_SEQ_CST))
void* __real_malloc(size_t); void __real_free(void*); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); int __real_posix_memalign(void**, size_t, size_t);
void* __wrap_malloc(size_t n) { if (inject(true, "malloc")) return NULL; void* q = __real_malloc(n); if (counting && q) COUNT(1); return q; }
void* __wrap_calloc(size_t n, size_t m) { if (inject(true, "calloc")) return NULL; void* q = __real_calloc(n, m); if (counting && q) COUNT(1); return q; }
void* __wrap_realloc(void* o, size_t n) { if (inject(true, "realloc")) return NULL; void* q = __real_realloc(o, n); if (counting && q && !o) COUNT(1); return q; }
int __wrap_posix_memalign(void** q, size_t a, size_t n) { if (inject(true, "posix_memalign")) return ENOMEM; int r = __real_posix_memalign(q, a, n); if (counting && !r) COUNT(1); return r; }
void __wrap_free(void* q) { if (counting && q) COUNT(-1); __real_free(q); }
#define SYS(ret, name, params, args) ret __real_##name params; ret __wrap_##name params { if (inject(false, #name)) return (ret)-1; return __real_##name args; }
SYS(ssize_t, read, (int a, void* b, size_t c), (a, b, c))
SYS(ssize_t, write, (int a, const void* b, size_t c), (a, b, c))
SYS(ssize_t, pread, (int a, void* b, size_t c, off_t d), (a, b, c, d))
SYS(ssize_t, pwrite, (int a, const void* b, size_t c, off_t d), (a, b, c, d))
SYS(int, dup, (int a), (a))
SYS(off_t, lseek, (int a, off_t b, int c), (a, b, c))
SYS(int, fstat, (int a, struct stat* b), (a, b))
SYS(int, stat, (const char* a, struct stat* b), (a, b))
SYS(int, fsync, (int a), (a))
SYS(int, pipe, (int a[2]), (a))
SYS(int, chdir, (const char* a), (a))
SYS(int, fchmod, (int a, mode_t b), (a, b))
SYS(int, socket, (int a, int b, int c), (a, b, c))
SYS(int, mkstemp, (char* a), (a))
SYS(int, ftruncate, (int a, off_t b), (a, b))
int __real_open(const char*, int, ...); int __wrap_open(const char* a, int b, mode_t c) { if (inject(false, "open")) return -1; return __real_open(a, b, c); }
int __real_fcntl(int, int, ...); int __wrap_fcntl(int a, int b, long c) { if (inject(false, "fcntl")) return -1; return __real_fcntl(a, b, c); }
char* __real_getcwd(char*, size_t); char* __wrap_getcwd(char* b, size_t n) { if (inject(false, "getcwd")) return NULL; char* r = __real_getcwd(b, n); if (r && !b && counting) COUNT(1); return r; }
locale_t __real_newlocale(int, const char*, locale_t); locale_t __wrap_newlocale(int a, const char* b, locale_t c) { if (inject(true, "newlocale")) return 0; return __real_newlocale(a, b, c); }
locale_t __real_duplocale(locale_t); locale_t __wrap_duplocale(locale_t a) { if (inject(true, "duplocale")) return 0; return __real_duplocale(a); }
char* __real_strdup(const char*); char* __wrap_strdup(const char* s) { if (inject(true, "strdup")) return NULL; char* r = __real_strdup(s); if (r && counting) COUNT(1); return r; }
char* __real_realpath(const char*, char*); char* __wrap_realpath(const char* a, char* b) { if (inject(false, "realpath")) return NULL; char* r = __real_realpath(a, b); if (r && !b && counting) COUNT(1); return r; }

char* __real_get_current_dir_name(void); char* __wrap_get_current_dir_name(void) { if (inject(true, "get_current_dir_name")) return NULL; char* r = __real_get_current_dir_name(); if (r && counting) COUNT(1); return r; }
#define trace(...) do { bool c_ = counting; int p_ = phase; counting = false; phase = PH_OFF; pbt_trace(__VA_ARGS__); counting = c_; phase = p_; } while (0)
#define FAIL(...) do { counting = false; phase = PH_OFF; pbt_fail(P, __VA_ARGS__); } while (0)

static void before(void) { counting = true; phase = faults ? PH_BEGIN : PH_OFF; att_exp_status = faults ? -2 : -1; }
static void recovery(void)
{
    int ph = phase; phase = PH_OFF;
    if (fired) {
        int s = picotm_error_status();
        bool ok = fired_alloc ? (s == PICOTM_ERROR_CODE && picotm_error_as_error_code() == PICOTM_OUT_OF_MEMORY) || (s == PICOTM_ERRNO && picotm_error_as_errno() == ENOMEM)
                              : s == PICOTM_ERRNO && picotm_error_as_errno() == fault_err;
        bool gaveup = att_cur >= 0 && att_exp_status != -2 && att_exp_status != -1 && s == att_exp_status;   /* the ending's own error */
        if (!ok && !gaveup) FAIL("error", "failure of %s reported as status %d value %d", fired_what, s, s == PICOTM_ERRNO ? picotm_error_as_errno() : s == PICOTM_ERROR_CODE ? (int)picotm_error_as_error_code() : 0);
        if (picotm_error_is_non_recoverable()) {
            if (fired_phase != PH_COMMIT && fired_phase != PH_UNDO) FAIL("error", "failure of %s in an operation reported as non-recoverable", fired_what);
            pbt_nontrivial(P);
            pbt_label(P, "non-recoverable");
            pbt_pass_exit();
        }
        if (!gaveup) att_exp_status = -2;
    } else if (att_exp_status == -2) att_exp_status = -1;
    (void)ph;
}
static void after(void) { phase = PH_OFF; counting = false; }

/* ---- comparing everything ---- */
static void pattern(char* d, unsigned len, unsigned char seed) { for (unsigned i = 0; i < len; ++i) d[i] = seed + i * 7; }
static void same_bytes(const void* got, const void* want, unsigned n, const char* what, int i)
{
    for (unsigned k = 0; k < n; ++k) if (((unsigned char*)got)[k] != ((unsigned char*)want)[k])
        FAIL("contents", "%s %d: byte %u is %#x, expected %#x", what, i, k, ((unsigned char*)got)[k], ((unsigned char*)want)[k]);
}
static int count_fds(void) { int n = 0; for (int i = 3; i < 200; ++i) if (__real_fcntl(i, F_GETFD, 0) >= 0) ++n; return n; }
static int base_fds;
static const char* dirname_of(int d) { static char b[320]; if (d) snprintf(b, sizeof b, "%s/dir%d", base, d); else snprintf(b, sizeof b, "%s", base); return b; }
static const char* const locname[2] = { "C", "C.UTF-8" };
static void cont_check(const struct model* m);

static void compare(const struct model* m, const char* when)
{
    counting = false; int ph = phase; phase = PH_OFF;
    for (int i = 0; i < NV; ++i) if (*var[i] != m->var[i]) FAIL("memory", "%s: variable %d is %llu, expected %llu", when, i, (unsigned long long)*var[i], (unsigned long long)m->var[i]);
    for (int i = 0; i < NHP; ++i) {
        if (hp[i] != m->hp[i].p) FAIL("heap", "%s: pointer %d is %p, expected %p", when, i, hp[i], m->hp[i].p);
        if (hp[i]) { char b[128]; pattern(b, m->hp[i].len, m->hp[i].seed); same_bytes(hp[i], b, m->hp[i].len, "heap block", i); }
    }
    for (int i = 0; i < NB; ++i) same_bytes(buf[i], m->buf[i], BSZ, "buffer", i);
    for (int i = 0; i < NF; ++i) {
        unsigned char b[FMAX * 2];
        int n = __real_pread(fd[i], b, sizeof b, 0);
        if (n != m->f[i].size) FAIL("file", "%s: file %d has %d bytes, expected %d", when, i, n, m->f[i].size);
        same_bytes(b, m->f[i].d, n, "file", i);
        off_t o = __real_lseek(fd[i], 0, SEEK_CUR);
        if (o != m->f[i].off) FAIL("file", "%s: file %d has offset %ld, expected %d", when, i, (long)o, m->f[i].off);
        struct stat s; __real_fstat(fd[i], &s);
        if ((s.st_mode & 0777) != m->f[i].mode) FAIL("file", "%s: file %d has mode %o, expected %o", when, i, s.st_mode & 0777, m->f[i].mode);
        if (__real_fcntl(fd[i], F_GETFD, 0) != m->f[i].fdflag) FAIL("file", "%s: descriptor flag of file %d is %d, expected %d", when, i, __real_fcntl(fd[i], F_GETFD, 0), m->f[i].fdflag);
    }
    int want = base_fds;
    for (int i = 0; i < NSL; ++i) {
        if (m->s[i].kind == S_NONE) continue;
        want += m->s[i].kind == S_PIPE ? 2 : 1;
        if (__real_fcntl(m->s[i].fd, F_GETFD, 0) < 0) FAIL("descriptor", "%s: descriptor %d is closed", when, m->s[i].fd);
        if (m->s[i].kind == S_OPEN || m->s[i].kind == S_TEMP) {
            unsigned char b[FMAX * 2];
            int n = __real_pread(m->s[i].fd, b, sizeof b, 0);
            if (n != m->s[i].size) FAIL("file", "%s: new file %d has %d bytes, expected %d", when, i, n, m->s[i].size);
            same_bytes(b, m->s[i].d, n, "new file", i);
        }
    }
    int have = count_fds();
    if (have != want) FAIL("descriptor", "%s: %d descriptors are open, expected %d", when, have, want);
    char b[400];
    if (!__real_getcwd(b, sizeof b) || strcmp(b, dirname_of(m->cwd))) FAIL("directory", "%s: working directory is %s, expected %s", when, b, dirname_of(m->cwd));
    locale_t l = uselocale(0), wl = m->cur < 0 ? LC_GLOBAL_LOCALE : m->loc[m->cur].l;
    if (l != wl) FAIL("locale", "%s: locale object in use is %p, expected %p", when, l, wl);
    for (int i = 0; i < NLOC; ++i) if (m->loc[i].l && strcmp(nl_langinfo_l(CODESET, m->loc[i].l), m->loc[i].which ? "UTF-8" : "ANSI_X3.4-1968")) FAIL("locale", "%s: locale object %d has code set %s", when, i, nl_langinfo_l(CODESET, m->loc[i].l));
    phase = ph; counting = true;
}

/* ---- operations ---- */
enum { V_ST, V_LD, V_PRIV, V_CPY, V_SET, H_ALLOC, H_CALLOC, H_ALIGN, H_FREE, H_REALLOC, H_DUP, X_READ, X_WRITE, X_PREAD, X_PWRITE, X_LSK, X_STAT, X_CHMOD, X_SETFD, X_SYNC,
       N_OPEN, N_DUP, N_PIPE, N_SOCK, N_TEMP, N_WRITE, N_CLOSE, W_CHDIR, W_GETCWD, L_NEW, L_DUP, L_FREE, L_USE, E_SET, M_FN, C_PUT, C_TAKE, C_LOOK, NK };
static const char* const opname[NK] = { "store", "load", "privatize", "memcpy", "memset", "malloc", "calloc", "posix_memalign", "free", "realloc", "strdup", "read", "write", "pread", "pwrite", "lseek", "fstat", "fchmod", "fcntl",
    "fsync", "open", "dup", "pipe", "socket", "mkstemp", "write-new", "close", "chdir", "getcwd", "newlocale", "duplocale", "freelocale", "uselocale", "errno", "sqrt", "put", "take", "look" };
static int module_of(int k) { return k <= V_SET ? 0 : k <= H_DUP ? 1 : k <= X_SYNC ? 2 : k <= N_CLOSE ? 3 : k <= W_GETCWD ? 4 : k <= L_USE ? 5 : k <= E_SET ? 6 : k == M_FN ? 7 : 8; }

static void att_start(void)
{
    compare(&com, "at the start");
    memcpy(&view, &com, sizeof view);
    used_modules = 0;
    if (faults) phase = PH_OP;
    trace(P, "attempt %d:", att_cur);
}
static void use(int k) { used_modules |= 1u << module_of(k); }
static int fired0;
/* an operation may report the injected failure through its result */
static bool reported(bool failed, int e)
{
    if (!failed) return false;
    if (!(fired && !fired0) || e != (fired_alloc ? ENOMEM : fault_err)) FAIL("result", "operation failed with errno %d%s", e, fired ? " after a fault" : "");
    return true;
}
#define RES(fmt, got, want) do { long g_ = (long)(got), w_ = (long)(want); if (g_ != w_) FAIL("result", fmt " returned %ld, expected %ld", g_, w_); } while (0)

static const void* keyof(struct txmultiset_entry* e) { return &((struct item*)((char*)e - offsetof(struct item, m)))->key; }
static void cont_op(struct aop* o)
{
    static struct item* i; static int c;
    i = &it[o->a % NI]; c = o->b % NCONT;
    int x = o->a % NI;
    switch (o->k) {
    case C_PUT:
        if (view.in[x] >= 0) return;
        switch (c) {
        case LIST: if (o->c & 1) txlist_push_front_tx(txlist_of_state_tx(&st.l), &i->l); else txlist_push_back_tx(txlist_of_state_tx(&st.l), &i->l); break;
        case MSET: txmultiset_insert_tx(txmultiset_of_state_tx(&st.m), &i->m); break;
        case QUEUE: txqueue_push_tx(txqueue_of_state_tx(&st.q), &i->q); break;
        case STACK: txstack_push_tx(txstack_of_state_tx(&st.s), &i->s); break;
        }
        { int at = view.n[c];
          if (c == LIST && (o->c & 1)) at = 0;
          if (c == MSET) for (at = 0; at < view.n[c] && it[view.seq[c][at]].key < i->key; ) ++at;
          memmove(&view.seq[c][at + 1], &view.seq[c][at], (view.n[c] - at) * sizeof(int));
          view.seq[c][at] = x; ++view.n[c]; view.in[x] = c; }
        break;
    case C_TAKE: {
        if (!view.n[c]) return;
        static int at;
        switch (c) {
        case LIST:
            switch (o->c % 3) {
            case 0: txlist_pop_front_tx(txlist_of_state_tx(&st.l)); at = 0; break;
            case 1: txlist_pop_back_tx(txlist_of_state_tx(&st.l)); at = view.n[c] - 1; break;
            case 2: at = o->a % view.n[c]; txlist_erase_tx(txlist_of_state_tx(&st.l), &it[view.seq[c][at]].l); break;
            } break;
        case MSET: at = o->a % view.n[c]; txmultiset_erase_tx(txmultiset_of_state_tx(&st.m), &it[view.seq[c][at]].m); break;
        case QUEUE: txqueue_pop_tx(txqueue_of_state_tx(&st.q)); at = 0; break;
        case STACK: txstack_pop_tx(txstack_of_state_tx(&st.s)); at = view.n[c] - 1; break;
        }
        view.in[view.seq[c][at]] = -1;
        memmove(&view.seq[c][at], &view.seq[c][at + 1], (view.n[c] - at - 1) * sizeof(int));
        --view.n[c];
        break; }
    case C_LOOK: {
        size_t n = c == LIST ? txlist_size_tx(txlist_of_state_tx(&st.l)) : c == MSET ? txmultiset_size_tx(txmultiset_of_state_tx(&st.m)) : c == QUEUE ? txqueue_size_tx(txqueue_of_state_tx(&st.q)) : txstack_size_tx(txstack_of_state_tx(&st.s));
        RES("size of container", n, view.n[c]);
        if (!n) return;
        void* e, *w;
        switch (c) {
        case LIST: e = txlist_front_tx(txlist_of_state_tx(&st.l)); w = &it[view.seq[c][0]].l; break;
        case MSET: e = txmultiset_begin_tx(txmultiset_of_state_tx(&st.m)); w = &it[view.seq[c][0]].m; break;
        case QUEUE: e = txqueue_back_tx(txqueue_of_state_tx(&st.q)); w = &it[view.seq[c][view.n[c] - 1]].q; break;
        default: e = txstack_top_tx(txstack_of_state_tx(&st.s)); w = &it[view.seq[c][view.n[c] - 1]].s; break;
        }
        if (e != w && (c != MSET || *(const int*)keyof(e) != *(const int*)keyof(w))) FAIL("container", "container %d has an unexpected end element", c);
        break; }
    }
}
static int slot_free(unsigned a) { int s = a % NSL; return view.s[s].kind == S_NONE && !view.s[s].closed ? s : -1; }

static void att_op(struct aop* o)
{
    static uint64_t x, y; static int i, s, n; static long r; static char tmp[128]; static void* q;
    if (faults) { att_allow(-2, -1); }
    fired0 = fired;
    if (o->k == X_SETFD || o->k == N_TEMP || o->k == L_FREE) att_redo = !picotm_is_irrevocable();
    if (faults) phase = att_redo ? PH_UNDO : PH_OP;     /* such an operation begins by rolling back */
    if (o->k != C_PUT && o->k != C_TAKE) trace(P, " %s", opname[o->k]); else trace(P, " %s %d %d", opname[o->k], o->a % NI, o->b % NCONT);
    i = o->a % NV;
    switch (o->k) {
    case V_ST: x = o->b; store_tx(var[i], &x, 8); view.var[i] = x; break;
    case V_LD: load_tx(var[i], &y, 8); RES("load", y, view.var[i]); break;
    case V_PRIV: privatize_tx(var[i], 8, o->b & 1 ? PICOTM_TM_PRIVATIZE_LOADSTORE : PICOTM_TM_PRIVATIZE_LOAD); RES("privatized variable", *var[i], view.var[i]); if (o->b & 1) { *var[i] = o->c; view.var[i] = o->c; } break;
    case V_CPY: memcpy_tx(var[i], var[o->b % NV], i == (int)(o->b % NV) ? 0 : 8); view.var[i] = view.var[o->b % NV]; break;
    case V_SET: memset_tx(var[i], o->b, 8); memset(&view.var[i], o->b, 8); break;
    case H_ALLOC: case H_CALLOC: case H_ALIGN: case H_DUP: {
        i = o->a % NHP;
        n = 1 + o->b % 100;
        privatize_tx(&hp[i], sizeof hp[i], PICOTM_TM_PRIVATIZE_LOADSTORE);
        if (view.hp[i].p) return;
        use(o->k);
        if (o->k == H_ALLOC) q = malloc_tx(n);
        else if (o->k == H_CALLOC) { q = calloc_tx(n, 1); if (q) { load_tx(q, tmp, n); for (int k = 0; k < n; ++k) if (tmp[k]) FAIL("heap", "calloc returned used memory"); } }
        else if (o->k == H_ALIGN) { q = NULL; privatize_tx(&q, sizeof q, PICOTM_TM_PRIVATIZE_LOADSTORE); r = posix_memalign_tx(&q, 32, n); if (reported(r != 0, r)) q = NULL; }
        else { memset(tmp, 'a' + o->c % 20, n - 1); tmp[n - 1] = 0; q = strdup_tx(tmp); if (q) { char t2[128]; load_tx(q, t2, n); if (strcmp(tmp, t2)) FAIL("heap", "strdup returned \"%s\"", t2); } }
        if (o->k != H_ALIGN && reported(!q, errno)) break;
        if (!q) break;
        { char t2[128]; pattern(t2, n, o->c); store_tx(q, t2, n); }
        hp[i] = q;
        view.hp[i].p = q; view.hp[i].len = n; view.hp[i].seed = o->c;
        break; }
    case H_FREE:
        i = o->a % NHP;
        privatize_tx(&hp[i], sizeof hp[i], PICOTM_TM_PRIVATIZE_LOADSTORE);
        if (!view.hp[i].p) return;
        free_tx(hp[i]); hp[i] = NULL; view.hp[i].p = NULL; break;
    case H_REALLOC:
        i = o->a % NHP;
        privatize_tx(&hp[i], sizeof hp[i], PICOTM_TM_PRIVATIZE_LOADSTORE);
        if (!view.hp[i].p) return;
        n = 1 + o->b % 100;
        q = realloc_tx(hp[i], n);
        if (reported(!q, errno)) break;
        { char t2[128], t3[128]; int m = n < (int)view.hp[i].len ? n : (int)view.hp[i].len; load_tx(q, t2, m); pattern(t3, m, view.hp[i].seed); same_bytes(t2, t3, m, "reallocated block", i); pattern(t2, n, o->c); store_tx(q, t2, n); }
        hp[i] = q; view.hp[i].p = q; view.hp[i].len = n; view.hp[i].seed = o->c;
        break;
    case X_READ: case X_PREAD: {
        i = o->a % NF; n = o->b % (BSZ + 1); s = o->c % NB;
        int off = o->k == X_READ ? view.f[i].off : (int)(o->c / 4 % FMAX);
        r = o->k == X_READ ? read_tx(fd[i], buf[s], n) : pread_tx(fd[i], buf[s], n, off);
        if (reported(r < 0, errno)) break;
        int w = off >= view.f[i].size ? 0 : view.f[i].size - off; if (w > n) w = n;
        RES("read", r, w);
        same_bytes(buf[s], view.f[i].d + off, w, "data read from file", i);
        memcpy(view.buf[s], view.f[i].d + off, w);
        if (o->k == X_READ) view.f[i].off += w;
        break; }
    case X_WRITE: case X_PWRITE: {
        i = o->a % NF; n = o->b % 33;
        int off = o->k == X_WRITE ? view.f[i].off : (int)(o->c % (FMAX - 32));
        if (off + n > FMAX) return;
        pattern(tmp, n, o->c);
        r = o->k == X_WRITE ? write_tx(fd[i], tmp, n) : pwrite_tx(fd[i], tmp, n, off);
        if (reported(r < 0, errno)) break;
        RES("write", r, n);
        if (n) { if (off > view.f[i].size) memset(view.f[i].d + view.f[i].size, 0, off - view.f[i].size); memcpy(view.f[i].d + off, tmp, n); if (off + n > view.f[i].size) view.f[i].size = off + n; }
        if (o->k == X_WRITE) view.f[i].off += n;
        break; }
    case X_LSK: {
        i = o->a % NF; int to = o->b % FMAX, wh = o->c % 3;
        long off = wh == 0 ? to : wh == 1 ? to - view.f[i].off : to - view.f[i].size;
        r = lseek_tx(fd[i], off, wh == 0 ? SEEK_SET : wh == 1 ? SEEK_CUR : SEEK_END);
        if (reported(r < 0, errno)) break;
        RES("lseek", r, to); view.f[i].off = to;
        break; }
    case X_STAT: {
        struct stat sb;
        i = o->a % NF;
        privatize_tx(&sb, sizeof sb, PICOTM_TM_PRIVATIZE_LOADSTORE);
        memset(&sb, 0, sizeof sb);
        r = fstat_tx(fd[i], &sb);
        if (reported(r < 0, errno)) break;
        RES("mode in fstat", sb.st_mode & 0777, view.f[i].mode);
        break; }
    case X_CHMOD: i = o->a % NF; r = fchmod_tx(fd[i], 0600 + o->b % 64); if (reported(r < 0, errno)) break; view.f[i].mode = 0600 + o->b % 64; break;
    case X_SETFD: i = o->a % NF; r = fcntl_tx(fd[i], F_SETFD, o->b & 1 ? FD_CLOEXEC : 0); if (reported(r < 0, errno)) break; view.f[i].fdflag = o->b & 1 ? FD_CLOEXEC : 0; break;
    case X_SYNC: i = o->a % NF; r = fsync_tx(fd[i]); reported(r < 0, errno); break;
    case N_OPEN:
        if ((s = slot_free(o->a)) < 0) return;
        snprintf(tmp, sizeof tmp, "%s/new%d-%u", base, s, filegen * 100 + o->c % 100);
        r = open_tx(tmp, O_RDWR | O_CREAT | (o->b & 1 ? O_CLOEXEC : 0), 0600);
        if (reported(r < 0, errno)) break;
        view.s[s].kind = S_OPEN; view.s[s].fd = r; view.s[s].off = view.s[s].size = 0; break;
    case N_DUP:
        if ((s = slot_free(o->a)) < 0) return;
        r = dup_tx(fd[o->b % NF]);
        if (reported(r < 0, errno)) break;
        view.s[s].kind = S_DUP; view.s[s].fd = r; view.s[s].of = o->b % NF; break;
    case N_PIPE: {
        if ((s = slot_free(o->a)) < 0) return;
        static int pf[2];
        r = pipe_tx(pf);
        if (reported(r < 0, errno)) break;
        view.s[s].kind = S_PIPE; view.s[s].fd = pf[0]; view.s[s].fd2 = pf[1]; view.s[s].size = 0; break; }
    case N_SOCK:
        if ((s = slot_free(o->a)) < 0) return;
        r = socket_tx(AF_UNIX, SOCK_STREAM, 0);
        if (reported(r < 0, errno)) break;
        view.s[s].kind = S_SOCK; view.s[s].fd = r; break;
    case N_TEMP: {
        if ((s = slot_free(o->a)) < 0) return;
        static char tp[400];
        snprintf(tp, sizeof tp, "%s/tmpXXXXXX", base);
        r = mkstemp_tx(tp);
        if (reported(r < 0, errno)) break;
        view.s[s].kind = S_TEMP; view.s[s].fd = r; view.s[s].off = view.s[s].size = 0; break; }
    case N_WRITE:
        s = o->a % NSL; n = 1 + o->b % 32;
        pattern(tmp, n, o->c);
        switch (view.s[s].kind) {
        case S_OPEN: case S_TEMP: case S_PIPE:
            if (view.s[s].size + n > FMAX) return;
            r = write_tx(view.s[s].kind == S_PIPE ? view.s[s].fd2 : view.s[s].fd, tmp, n);
            if (reported(r < 0, errno)) break;
            RES("write", r, n);
            memcpy(view.s[s].d + view.s[s].size, tmp, n); view.s[s].size += n; break;
        case S_DUP: {
            int f = view.s[s].of, off = view.f[f].off;
            if (off + n > FMAX) return;
            r = write_tx(view.s[s].fd, tmp, n);
            if (reported(r < 0, errno)) break;
            RES("write", r, n);
            if (off > view.f[f].size) memset(view.f[f].d + view.f[f].size, 0, off - view.f[f].size);
            memcpy(view.f[f].d + off, tmp, n); if (off + n > view.f[f].size) view.f[f].size = off + n;
            view.f[f].off += n; break; }
        default: return;
        }
        break;
    case N_CLOSE:
        s = o->a % NSL;
        if (view.s[s].kind != S_OPEN && view.s[s].kind != S_TEMP && view.s[s].kind != S_SOCK && view.s[s].kind != S_DUP) return;
        r = close_tx(view.s[s].fd);
        if (reported(r < 0, errno)) break;
        view.s[s].kind = S_NONE; view.s[s].closed = 1; break;
    case W_CHDIR: i = o->a % 3; r = chdir_tx(dirname_of(i)); if (reported(r < 0, errno)) break; view.cwd = i; break;
    case W_GETCWD: { static char cb[400]; char* g = getcwd_tx(cb, sizeof cb); if (reported(!g, errno)) break; if (strcmp(cb, dirname_of(view.cwd))) FAIL("result", "getcwd returned %s, expected %s", cb, dirname_of(view.cwd)); break; }
    case L_NEW: case L_DUP: {
        i = o->a % NLOC;
        if (view.loc[i].l || view.loc[i].freed) return;
        static locale_t l; int w = o->b & 1;
        if (o->k == L_DUP) { int j = o->c % NLOC; if (!view.loc[j].l) return; w = view.loc[j].which; l = duplocale_tx(view.loc[j].l); }
        else l = newlocale_tx(LC_ALL_MASK, locname[w], (locale_t)0);
        if (reported(!l, errno)) break;
        view.loc[i].l = l; view.loc[i].which = w; break; }
    case L_FREE: i = o->a % NLOC; if (!view.loc[i].l || view.cur == i) return; freelocale_tx(view.loc[i].l); view.loc[i].l = 0; view.loc[i].freed = 1; break;
    case L_USE: {
        i = (int)(o->a % (NLOC + 1)) - 1; if (i >= 0 && !view.loc[i].l) return;
        locale_t was = view.cur < 0 ? LC_GLOBAL_LOCALE : view.loc[view.cur].l;
        locale_t l = uselocale_tx(i < 0 ? LC_GLOBAL_LOCALE : view.loc[i].l);
        if (reported(!l, errno)) break;
        if (l != was) FAIL("result", "uselocale returned %p, expected %p", l, was);
        view.cur = i; break; }
    case E_SET: errno_tx; errno = 1000 + o->b % 100; break;
    case M_FN: { double d = sqrt_tx(o->b % 100 * (o->b % 100)); RES("sqrt", d, o->b % 100); break; }
    default: cont_op(o); break;
    }
    use(o->k);
}
static void att_finish_body(void)
{
    int e = att[att_cur].end;
    trace(P, " %s\n", att_endname[e]);
    if (faults) { phase = e == E_COMMIT ? PH_COMMIT : PH_UNDO; att_exp_status = -2; }
    if (__builtin_popcount(used_modules) >= 3 && e != E_COMMIT) nontriv = 1;
}
static void att_committed(void)
{
    phase = PH_OFF;
    compare(&view, "after commit");
    counting = false;
    memcpy(&com, &view, sizeof com);
    for (int i = 0; i < NSL; ++i) {
        com.s[i].closed = 0;
        if (com.s[i].kind == S_NONE || com.s[i].kind == S_OPEN) continue;
        if (com.s[i].kind == S_PIPE) {
            char b[FMAX * 2];
            __real_fcntl(com.s[i].fd, F_SETFL, O_NONBLOCK);
            int n = __real_read(com.s[i].fd, b, sizeof b);
            if (n < 0) n = 0;
            if (n != com.s[i].size) FAIL("pipe", "%d bytes in the pipe, expected %d", n, com.s[i].size);
            same_bytes(b, com.s[i].d, n, "pipe", i);
            close(com.s[i].fd2);
        }
        close(com.s[i].fd);
        com.s[i].kind = S_NONE;
    }
    for (int i = 0; i < NLOC; ++i) com.loc[i].freed = 0;
}
static void att_rolledback(void) { phase = PH_OFF; compare(&com, "after roll-back"); if (faults) phase = PH_BEGIN; }

/* everything, from another thread */
static int seqn[NCONT]; static int seqi[NCONT][NI];
static int others_fd[NSL];
__attribute__((noinline)) static void other_tx(void)
{
    static volatile int tries;
    tries = 0;
    picotm_begin
        if (++tries > 3) FAIL("locked", "a transaction of another thread cannot use the resources");
        memset(seqn, 0, sizeof seqn);
        for (int i = 0; i < NV; ++i) { static uint64_t v; load_tx(var[i], &v, 8); RES("load in another thread", v, com.var[i]); v += 1; store_tx(var[i], &v, 8); }
        for (int i = 0; i < NHP; ++i) { static char* q; load_tx(&hp[i], &q, sizeof q); if (q != com.hp[i].p) FAIL("heap", "pointer %d differs in another thread", i); store_tx(&hp[i], &q, sizeof q); }
        for (int i = 0; i < NF; ++i) {
            static char b[FMAX]; static char c = 'x';
            long n = pread_tx(fd[i], b, FMAX, 0);
            RES("pread in another thread", n, com.f[i].size);
            same_bytes(b, com.f[i].d, n, "file in another thread", i);
            if (com.f[i].size) pwrite_tx(fd[i], com.f[i].d, 1, 0);
            RES("lseek in another thread", lseek_tx(fd[i], 0, SEEK_CUR), com.f[i].off);
            fchmod_tx(fd[i], com.f[i].mode); fcntl_tx(fd[i], F_SETFD, com.f[i].fdflag);
        }
        for (int i = 0; i < NSL; ++i) if (com.s[i].kind == S_OPEN) write_tx(com.s[i].fd, "abc", 0);
        { static char b[300]; getcwd_tx(b, sizeof b); if (strcmp(b, dirname_of(com.cwd))) FAIL("directory", "another thread is in %s", b); chdir_tx(dirname_of(com.cwd)); }
        { int f = open_tx("/dev/null", O_RDWR); close_tx(f); }
        setlocale_tx(LC_ALL, "C");
        for (int i = 0; i < NLOC; ++i) if (com.loc[i].l) { uselocale_tx(com.loc[i].l); uselocale_tx(LC_GLOBAL_LOCALE); }
        { struct txlist* l = txlist_of_state_tx(&st.l); for (struct txlist_entry* e = txlist_begin_tx(l), *z = txlist_end_tx(l); e != z; e = txlist_entry_next_tx(e)) seqi[LIST][seqn[LIST]++] = ((struct item*)((char*)e - offsetof(struct item, l)))->id; txlist_push_back_tx(l, &spare); txlist_pop_back_tx(l); }
        { struct txmultiset* l = txmultiset_of_state_tx(&st.m); for (struct txmultiset_entry* e = txmultiset_begin_tx(l), *z = txmultiset_end_tx(l); e != z; e = txmultiset_entry_next_tx(e)) seqi[MSET][seqn[MSET]++] = ((struct item*)((char*)e - offsetof(struct item, m)))->id; }
        { struct txqueue* l = txqueue_of_state_tx(&st.q); while (!txqueue_empty_tx(l)) { seqi[QUEUE][seqn[QUEUE]++] = ((struct item*)((char*)txqueue_front_tx(l) - offsetof(struct item, q)))->id; txqueue_pop_tx(l); } }
        { struct txstack* l = txstack_of_state_tx(&st.s); while (!txstack_empty_tx(l)) { seqi[STACK][seqn[STACK]++] = ((struct item*)((char*)txstack_top_tx(l) - offsetof(struct item, s)))->id; txstack_pop_tx(l); } }
    picotm_commit
        FAIL("locked", "a transaction of another thread failed with status %d", picotm_error_status());
    picotm_end
}
static void* other(void* arg)
{
    counting = true;
    other_tx();
    for (int c = 0; c < NCONT; ++c) {
        if (seqn[c] != com.n[c]) FAIL("container", "container %d has %d elements in another thread, expected %d", c, seqn[c], com.n[c]);
        for (int i = 0; i < seqn[c]; ++i) { int k = c == STACK ? seqn[c] - 1 - i : i; if (c == MSET ? it[seqi[c][k]].key != it[com.seq[c][i]].key : seqi[c][k] != com.seq[c][i]) FAIL("container", "container %d has element %d at position %d, expected %d", c, seqi[c][k], i, com.seq[c][i]); }
    }
    picotm_release();
    counting = false;
    return NULL;
}

static void gen(struct pbt* p, struct aop* o)
{
    static const unsigned w[NK] = { [V_ST] = 6, [V_LD] = 3, [V_PRIV] = 4, [V_CPY] = 3, [V_SET] = 2, [H_ALLOC] = 5, [H_CALLOC] = 2, [H_ALIGN] = 2, [H_FREE] = 4, [H_REALLOC] = 3, [H_DUP] = 2,
        [X_READ] = 5, [X_WRITE] = 5, [X_PREAD] = 3, [X_PWRITE] = 4, [X_LSK] = 3, [X_STAT] = 2, [X_CHMOD] = 2, [X_SETFD] = 2, [X_SYNC] = 1, [N_OPEN] = 3, [N_DUP] = 2, [N_PIPE] = 2, [N_SOCK] = 2, [N_TEMP] = 1, [N_WRITE] = 5, [N_CLOSE] = 2,
        [W_CHDIR] = 3, [W_GETCWD] = 2, [L_NEW] = 3, [L_DUP] = 2, [L_FREE] = 2, [L_USE] = 3, [E_SET] = 1, [M_FN] = 1, [C_PUT] = 10, [C_TAKE] = 6, [C_LOOK] = 3 };
    o->k = pbt_weighted(p, w, NK);
    o->a = pbt_draw(p, 256); o->b = pbt_draw(p, 256); o->c = pbt_draw(p, 256);
}
static int cmpkey(const void* a, const void* b) { int x = *(const int*)a, y = *(const int*)b; return x < y ? -1 : x > y; }

void prop_case(struct pbt* p)
{
    P = p;
    faults = !strcmp(pbt_mode, "fault");
    static char* far[3];
    if (!far[0]) {
        snprintf(base, sizeof base, "%s", pbt_scratch());
        for (int i = 0; i < 3; ++i) far[i] = mmap((void*)(0x100000000000ull + i * 0x80000000000ull), 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        for (int i = 1; i < 3; ++i) mkdir(dirname_of(i), 0700);
        for (int i = 0; i < NF; ++i) { char b[400]; snprintf(b, sizeof b, "%s/file%d", base, i); fd[i] = __real_open(b, O_RDWR | O_CREAT, 0600); }
    }
    ++filegen;
    memset(&com, 0, sizeof com);
    for (int i = 0; i < NV; ++i) { var[i] = (uint64_t*)(far[i % 3] + i / 3 * 8 * (i & 1 ? 1 : 1000)); *var[i] = com.var[i] = i; }
    for (int i = 0; i < NHP; ++i) hp[i] = NULL;
    for (int i = 0; i < NB; ++i) { pattern(buf[i], BSZ, i * 50); memcpy(com.buf[i], buf[i], BSZ); }
    for (int i = 0; i < NF; ++i) {
        com.f[i].size = pbt_draw(p, 80); com.f[i].mode = 0600;
        pattern((char*)com.f[i].d, com.f[i].size, i * 60 + 1);
        __real_ftruncate(fd[i], 0); __real_pwrite(fd[i], com.f[i].d, com.f[i].size, 0); __real_lseek(fd[i], 0, SEEK_SET); __real_fchmod(fd[i], 0600); __real_fcntl(fd[i], F_SETFD, 0);
    }
    __real_chdir(base);
    com.cur = -1;
    memset(com.in, -1, sizeof com.in);
    for (int i = 0; i < NI; ++i) { it[i].id = i; it[i].key = i / 2; txlist_entry_init(&it[i].l); txmultiset_entry_init(&it[i].m); txqueue_entry_init(&it[i].q); txstack_entry_init(&it[i].s); }
    txlist_entry_init(&spare);
    txlist_state_init(&st.l); txmultiset_state_init(&st.m, keyof, cmpkey); txqueue_state_init(&st.q); txstack_state_init(&st.s);
    base_fds = count_fds();
    blocks = 0; nontriv = 0;
    int ntx = 1 + pbt_draw(p, 4);
    for (int t = 0; t < ntx; ++t) {
        att_gen(p, gen, NULL);
        fired = 0; fault_n = 0;
        fault_at = -1;
        if (faults) {
            static const int errs[] = { EIO, ENOSPC, ENOMEM, EACCES, EMFILE, ENFILE, EPERM, EDQUOT };
            fault_kind = 1 + pbt_draw(p, 3);
            fault_err = errs[pbt_draw(p, 8)];
            if (pbt_chance(p, 7, 8)) fault_at = 1 + pbt_len(p, 120);
        }
        pbt_trace(p, "transaction %d\n", t);
        att_run();
        if (fired) { nontriv = 1; pbt_label(p, fired_alloc ? "allocation-failed" : "call-failed"); }
        faults = !strcmp(pbt_mode, "fault");
    }
    after();
    if (com.cur >= 0) uselocale(LC_GLOBAL_LOCALE);
    pthread_t th;
    pthread_create(&th, NULL, other, NULL);
    pthread_join(th, NULL);
    counting = true;
    picotm_release();
    counting = false;
    long live = 0;
    for (int i = 0; i < NHP; ++i) if (com.hp[i].p) { ++live; free(com.hp[i].p); }
    if (blocks != live) FAIL("leak", "%ld blocks of memory are allocated after the transactions, expected %ld", blocks, live);
    for (int i = 0; i < NSL; ++i) if (com.s[i].kind == S_OPEN) close(com.s[i].fd);
    for (int i = 0; i < NLOC; ++i) if (com.loc[i].l) freelocale(com.loc[i].l);
    DIR* d = opendir(base);
    for (struct dirent* e; (e = readdir(d)); ) if (!strncmp(e->d_name, "new", 3) || !strncmp(e->d_name, "tmp", 3)) unlinkat(dirfd(d), e->d_name, 0);
    closedir(d);
    if (nontriv) pbt_nontrivial(p);
}
