/* E01: exit_tx, _exit_tx, _Exit_tx and abort_tx commit the transaction and then end the process. Each
 * case runs in a forked process whose effects (shared memory, files, names, a pipe, buffered output, exit
 * handlers, termination status) are compared with a model afterwards. */
#define _GNU_SOURCE
#include "pbt.h"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <picotm/picotm.h>
#include <picotm/picotm-module.h>
#include <picotm/picotm-tm.h>
#include <picotm/picotm-libc.h>
#include <picotm/fcntl.h>
#include <picotm/unistd.h>
#include <picotm/stdlib.h>
#include <picotm/sys/stat.h>

const char prop_rule[] =
    "a forked process runs 0-2 ordinary transactions and then one with 0-10 operations (store_tx to shared memory, pwrite_tx, "
    "write_tx to a file, an O_APPEND file and a pipe, creating, linking and removing names (not in transactions that are aborted: picotm does not undo these), malloc_tx/free_tx, chdir_tx, sleep_tx(0)), "
    "0-12 conflicts, errors or irrevocability before, which ends with exit_tx, _exit_tx, _Exit_tx or abort_tx between any two "
    "operations, in the main or another thread, with buffered output and an exit handler that runs a transaction. Oracle: a model of "
    "memory, files, names, pipe and the termination status. Non-trivial: two kinds of effects before the end.";

enum { NW = 8, MAXOPS = 10, MAXF = 400 };
enum { STORE, INC, PWRITE, WRITE, APPEND, PIPE, CREATE, UNLINK, MKDIR, LINK, MALLOC, FREE, CHDIR, SLEEP, NOPS };
enum { K_EXIT, K__EXIT, K__EXIT2, K_ABORT };
struct op { int k; unsigned x, n, off; };
struct tx { int n; struct op op[MAXOPS]; int fails[14], nfails; };
static struct tx prog[3];
static int ntx, kind, status, at, inthread, handler, buffered;
static struct shm { uint64_t w[NW]; int returned, after, handler, recovered, bad; } *S;
static struct pbt* P;
static char D[100];
static int fd[3], pp[2];

struct model { uint64_t w[NW]; unsigned char f[2][MAXF]; unsigned len[2], pos, pipe; unsigned char pb[MAXF * 4]; int name[8]; };
static struct model M;
#define T(...) pbt_trace(P, __VA_ARGS__)
static void sys_fail(const char* w) { char b[200]; snprintf(b, sizeof b, "%s: %s", w, strerror(errno)); pbt_inconclusive(P, b); }
#define SYS(x) ({ long r_ = (long)(x); if (r_ < 0) sys_fail(#x); r_; })
static const char* const kname[] = { "exit_tx", "_exit_tx", "_Exit_tx", "abort_tx" };
static void data(unsigned char* b, unsigned n, unsigned x) { for (unsigned i = 0; i < n; ++i) b[i] = 1 + (x * 31 + i * 7) % 255; }
static char* nm(unsigned i) { static char b[4][160]; static int k; k = (k + 1) % 4; snprintf(b[k], sizeof b[k], "%s/n%u", D, i % 8); return b[k]; }

static void put(unsigned char* f, unsigned* len, unsigned off, unsigned n, unsigned x)
{
    unsigned char b[64];
    data(b, n, x);
    if (!n) return;
    if (off > *len) memset(f + *len, 0, off - *len);
    memcpy(f + off, b, n);
    if (off + n > *len) *len = off + n;
}
static int kinds;
/* the effect of an operation; false: leave it out */
static bool model(struct op* o)
{
    unsigned char b[64];
    switch (o->k) {
    case STORE: M.w[o->x % (NW - 1)] = o->x * 77 + 1; break;
    case INC: M.w[o->x % (NW - 1)]++; break;
    case PWRITE: put(M.f[0], &M.len[0], o->off, o->n, o->x); break;
    case WRITE: if (M.pos + o->n > MAXF) return false; put(M.f[0], &M.len[0], M.pos, o->n, o->x); M.pos += o->n; break;
    case APPEND: if (M.len[1] + o->n > MAXF) return false; put(M.f[1], &M.len[1], M.len[1], o->n, o->x); break;
    case PIPE: if (!o->n) return false; data(b, o->n, o->x); memcpy(M.pb + M.pipe, b, o->n); M.pipe += o->n; break;
    case CREATE: if (M.name[o->x % 8]) return false; M.name[o->x % 8] = 1; break;
    case MKDIR: if (M.name[o->x % 8]) return false; M.name[o->x % 8] = 2; break;
    case UNLINK: if (M.name[o->x % 8] != 1) return false; M.name[o->x % 8] = 0; break;
    case LINK: if (M.name[o->x % 8] != 1 || M.name[o->n % 8]) return false; M.name[o->n % 8] = 1; break;
    default: return true;
    }
    kinds |= 1 << o->k;
    return true;
}

static void* volatile blk[MAXOPS + 1];
static volatile int nblk;
static void run_op(const struct op* o)
{
    static __thread unsigned char b[64];
    uint64_t v;
    switch (o->k) {
    case STORE: v = o->x * 77 + 1; store_tx(&S->w[o->x % (NW - 1)], &v, 8); break;
    case INC: load_tx(&S->w[o->x % (NW - 1)], &v, 8); ++v; store_tx(&S->w[o->x % (NW - 1)], &v, 8); break;
    case PWRITE: data(b, o->n, o->x); pwrite_tx(fd[0], b, o->n, o->off); break;
    case WRITE: data(b, o->n, o->x); write_tx(fd[0], b, o->n); break;
    case APPEND: data(b, o->n, o->x); write_tx(fd[1], b, o->n); break;
    case PIPE: data(b, o->n, o->x); write_tx(pp[1], b, o->n); break;
    case CREATE: open_tx(nm(o->x), O_CREAT | O_EXCL | O_RDWR, 0600); break;
    case MKDIR: mkdir_tx(nm(o->x), 0700); break;
    case UNLINK: unlink_tx(nm(o->x)); break;
    case LINK: link_tx(nm(o->x), nm(o->n)); break;
    case MALLOC: if (nblk < MAXOPS) { blk[nblk] = malloc_tx(o->n + 1); nblk = nblk + 1; } break;
    case FREE: if (nblk) { nblk = nblk - 1; free_tx(blk[nblk]); } break;
    case CHDIR: chdir_tx(D); break;
    case SLEEP: if (sleep_tx(0)) S->bad = 1; break;
    }
}

static void at_exit(void)
{
    S->handler++;
    picotm_begin
        uint64_t v;
        load_tx(&S->w[NW - 1], &v, 8); ++v; store_tx(&S->w[NW - 1], &v, 8);
    picotm_commit
        S->bad = 2;
    picotm_end
}

__attribute__((noinline)) static void run_tx(volatile int t)
{
    static volatile int i, done;
    done = 0;
    picotm_begin
        nblk = 0;
        for (i = 0; i <= prog[t].n; ++i) {
            if (done < prog[t].nfails && prog[t].fails[done] % 16 == i % 16) {
                int f = prog[t].fails[done] / 16;
                if (!picotm_is_irrevocable()) {
                    done = done + 1;
                    switch (f) {
                    case 0: picotm_resolve_conflict(NULL); break;
                    case 1: picotm_recover_from_errno(4711); break;
                    case 2: picotm_irrevocable(); break;
                    }
                } else done = done + 1;
            }
            if (t == ntx - 1 && i == at) {
                switch (kind) {
                case K_EXIT: exit_tx(status); break;
                case K__EXIT: _exit_tx(status); break;
                case K__EXIT2: _Exit_tx(status); break;
                case K_ABORT: abort_tx(); break;
                }
                S->returned = 1;
            }
            if (i < prog[t].n) run_op(&prog[t].op[i]);
        }
    picotm_commit
        if (picotm_error_status() != PICOTM_ERRNO || picotm_error_as_errno() != 4711) {
            if (picotm_error_status() == PICOTM_ERRNO) S->recovered = picotm_error_as_errno(); else S->recovered = -1 - (int)picotm_error_status();
            _exit(99);
        }
        picotm_restart();
    picotm_end
    if (t == ntx - 1) S->after = 1;
}
static void run_all(void) { for (volatile int t = 0; t < ntx; ++t) run_tx(t); }
static void* thr(void* a) { run_all(); _exit(98); }

static void child(void)
{
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    struct rlimit rl = { 0, 0 };
    setrlimit(RLIMIT_CORE, &rl);
    for (int s = 1; s < 32; ++s) if (s != SIGKILL && s != SIGSTOP) signal(s, SIG_DFL);
    if (handler) atexit(at_exit);
    char p[160]; snprintf(p, sizeof p, "%s.buf", D);
    FILE* f = fopen(p, "w");
    if (f && buffered) fputs("buffered", f);
    if (inthread) {
        pthread_t t;
        pthread_create(&t, NULL, thr, NULL);
        for (;;) pause();
    }
    run_all();
    _exit(98);
}

static void gen_tx(struct pbt* p, int t)
{
    struct tx* q = &prog[t];
    int n = pbt_draw(p, MAXOPS + 1);
    q->n = 0;
    q->nfails = pbt_chance(p, 1, 3) ? 1 + pbt_draw(p, pbt_chance(p, 1, 4) ? 13 : 2) : 0;
    T("tx %d (%d aborts):", t, q->nfails);
    for (int i = 0; i < n; ++i) {
        struct op o = { .k = PBT_W(p, 3, 3, 4, 3, 3, 2, 2, 2, 1, 1, 1, 1, 1, 1), .x = pbt_draw(p, 200), .n = pbt_draw(p, 40), .off = pbt_draw(p, MAXF - 64) };
        static const char* const n[] = { "store", "inc", "pwrite", "write", "append", "pipe", "create", "unlink", "mkdir", "link", "malloc", "free", "chdir", "sleep" };
        if (q->nfails && (o.k == CREATE || o.k == UNLINK || o.k == LINK || o.k == MKDIR)) continue;    /* not undone */
        if (!model(&o)) continue;
        T(" %s(%u,%u,%u)", n[o.k], o.x, o.n, o.off);
        q->op[q->n++] = o;
    }
    for (int i = 0; i < q->nfails; ++i) {
        q->fails[i] = pbt_draw(p, q->n + 1);
        if (i % 10 == 9) q->fails[i] += 16;
        else q->fails[i] += 16 * PBT_W(p, 3, 3, 1);
    }
}

static void wipe(void)
{
    for (unsigned i = 0; i < 8; ++i) { unlink(nm(i)); rmdir(nm(i)); }
}

void prop_case(struct pbt* p)
{
    P = p;
    snprintf(D, sizeof D, "%s/d", pbt_scratch());
    mkdir(D, 0700);
    wipe();
    if (!S) { S = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (S == MAP_FAILED) { S = NULL; sys_fail("mmap"); } }
    memset(S, 0, sizeof *S);
    memset(&M, 0, sizeof M);
    char n0[160], n1[160], nb[160];
    snprintf(n0, sizeof n0, "%s.0", D); snprintf(n1, sizeof n1, "%s.1", D); snprintf(nb, sizeof nb, "%s.buf", D);
    unlink(n0); unlink(n1); unlink(nb);
    fd[0] = SYS(open(n0, O_CREAT | O_RDWR, 0600));
    fd[1] = SYS(open(n1, O_CREAT | O_RDWR | O_APPEND, 0600));
    SYS(pipe2(pp, O_NONBLOCK));
    for (int i = 0; i < 2; ++i) {
        M.len[i] = pbt_draw(p, 60);
        data(M.f[i], M.len[i], 17 + i);
        SYS(write(fd[i], M.f[i], M.len[i]));
    }
    M.pos = pbt_draw(p, 40);
    SYS(lseek(fd[0], M.pos, SEEK_SET));
    for (unsigned i = 0; i < 8; ++i) if (pbt_chance(p, 1, 3)) { M.name[i] = 1; close(SYS(open(nm(i), O_CREAT | O_EXCL | O_WRONLY, 0600))); }
    ntx = 1 + (int)PBT_W(p, 4, 2, 1);
    kind = pbt_draw(p, 4);
    status = pbt_draw(p, 300);
    inthread = pbt_chance(p, 1, 4);
    handler = pbt_chance(p, 1, 3);
    buffered = pbt_chance(p, 1, 3);
    kinds = 0;
    for (int t = 0; t < ntx - 1; ++t) { gen_tx(p, t); T("\n"); }
    struct model m0 = M;
    kinds = 0;
    gen_tx(p, ntx - 1);
    at = pbt_chance(p, 1, 2) ? prog[ntx - 1].n : (int)pbt_draw(p, prog[ntx - 1].n + 1);
    M = m0;
    kinds = 0;
    for (int i = 0; i < at; ++i) model(&prog[ntx - 1].op[i]);
    T(" %s(%d) after %d operations%s%s\n", kname[kind], status, at, inthread ? " in a second thread" : "", handler ? ", exit handler" : "");
    if (handler && kind == K_EXIT) M.w[NW - 1]++;

    pid_t pid = SYS(fork());
    if (!pid) child();
    int st;
    while (waitpid(pid, &st, 0) < 0) if (errno != EINTR) sys_fail("waitpid");
    const char* k = kname[kind];
    if (WIFEXITED(st) && WEXITSTATUS(st) == 99 && S->recovered)
        pbt_fail(p, "error", "%s: the transaction failed with error %d", k, S->recovered);
    if (S->after) pbt_fail(p, "continued", "%s: the process continued behind the transaction", k);
    if (S->returned) pbt_fail(p, "returned", "%s returned", k);
    if (S->bad) pbt_fail(p, "bad", "%s", S->bad == 1 ? "sleep_tx(0) returned a remaining time" : "the exit handler's transaction failed");
    if (kind == K_ABORT ? !WIFSIGNALED(st) || WTERMSIG(st) != SIGABRT : !WIFEXITED(st) || WEXITSTATUS(st) != (status & 255))
        pbt_fail(p, "status", "%s(%d): the process ended with %s %d", k, status, WIFSIGNALED(st) ? "signal" : "status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
    if (S->handler != (handler && kind == K_EXIT)) pbt_fail(p, "handler", "%s: the exit handler ran %d times", k, S->handler);
    for (int i = 0; i < NW; ++i) if (S->w[i] != M.w[i]) pbt_fail(p, "memory", "%s: word %d is %lu, expected %lu", k, i, S->w[i], M.w[i]);
    for (int i = 0; i < 2; ++i) {
        static unsigned char b[2 * MAXF];
        long n = SYS(pread(fd[i], b, sizeof b, 0));
        if (n != M.len[i]) pbt_fail(p, "file", "%s: file %d has %ld bytes, expected %u", k, i, n, M.len[i]);
        for (long j = 0; j < n; ++j) if (b[j] != M.f[i][j]) pbt_fail(p, "file", "%s: byte %ld of file %d is %d, expected %d", k, j, i, b[j], M.f[i][j]);
    }
    off_t o = SYS(lseek(fd[0], 0, SEEK_CUR));
    if (o != M.pos) pbt_fail(p, "offset", "%s: the file position is %ld, expected %u", k, (long)o, M.pos);
    static unsigned char b[MAXF * 5];
    long n = read(pp[0], b, sizeof b);
    if (n < 0) n = 0;
    if (n != M.pipe || memcmp(b, M.pb, n)) pbt_fail(p, "pipe", "%s: the pipe contains %ld bytes, expected %u%s", k, n, M.pipe, n == M.pipe ? " (different ones)" : "");
    for (unsigned i = 0; i < 8; ++i) {
        struct stat s;
        int e = lstat(nm(i), &s) ? 0 : S_ISDIR(s.st_mode) ? 2 : 1;
        if (e != M.name[i]) pbt_fail(p, "name", "%s: name %u: %d, expected %d (0 missing, 1 file, 2 directory)", k, i, e, M.name[i]);
    }
    struct stat s;
    if (stat(nb, &s) || s.st_size != (buffered && kind == K_EXIT ? 8 : 0)) pbt_fail(p, "stdio", "%s: %ld bytes of buffered output were written", k, (long)s.st_size);
    close(fd[0]); close(fd[1]); close(pp[0]); close(pp[1]);
    pbt_label(p, k);
    if (kinds & (kinds - 1)) pbt_nontrivial(p);
}
