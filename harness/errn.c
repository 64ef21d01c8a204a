/* S03: errno across transactions. */
#include "pbt.h"
#include <errno.h>
#include <fcntl.h>
#include <math.h>
#include <unistd.h>
#include <locale.h>
#include <limits.h>
#include <wchar.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <picotm/picotm-tm.h>
#include <picotm/picotm-libc.h>
#include <picotm/errno.h>
#include <picotm/fcntl.h>
#include <picotm/locale.h>
#include <picotm/math.h>
#include <picotm/sched.h>
#include <picotm/stdio.h>
#include <picotm/stdlib.h>
#include <picotm/string.h>
#include <picotm/unistd.h>
#include <picotm/sys/stat.h>
#include <picotm/sys/socket.h>

const char prop_rule[] =
    "1-6 transactions with 1-12 operations per attempt: setting and reading errno_tx, about 70 library "
    "calls of the libc and libm modules that succeed or fail, picotm_libc_save_errno(); an arbitrary errno before "
    "each transaction; all endings. Oracle: errno_tx reads the last value set unless a library call "
    "followed (then it may differ but is not zero unless it was), errno after commit likewise, and in "
    "the recovery code, at each restart and after each roll-back errno equals its value from before. "
    "Non-trivial: an attempt that modifies errno and is rolled back.";

enum { ATT_MAXOPS = 12 };
struct aop { int k; int v; int x; };
static void recovery_hook(void);
#define ATT_RECOVERY recovery_hook
#define ATT_BEFORE() (errno = e0)
#define ATT_AFTER() (saved_end = errno)
static int e0, saved_end;
#include "att.h"

static volatile int cur, exact; /* model of errno; exact unless a library call followed */
static volatile int modified;
static char path[300], missing[300], dirp[300];
#define T(...) pbt_trace(P, __VA_ARGS__)

static int ro;      /* a descriptor opened before */
static void few(bool on)        /* no more descriptors */
{
    static bool is;
    if (is == on) return;
    is = on;
    static struct rlimit o, n;
    int e = errno;
    if (on) { getrlimit(RLIMIT_NOFILE, &o); n = o; n.rlim_cur = 3; } else n = o;
    setrlimit(RLIMIT_NOFILE, &n);
    errno = e;
}

static void recovery_hook(void)
{
    int e = errno;
    few(false);
    if (e != e0) pbt_fail(P, "recovery", "attempt %d: errno is %d in the recovery code, %d before the transaction", att_cur, e, e0);
}

static void libcall(const char* n) { T("%s ", n); exact = 0; modified = 1; }

static void att_op(struct aop* o)
{
    static char buf[64];
    static struct stat stt;
    static int fd;
    int e;
    switch (o->k) {
    case 0: T("errno=%d ", o->v); errno_tx = o->v; cur = o->v; exact = 1; modified = 1; return;
    case 1: {
        e = errno_tx;
        T("errno? ");
        if (exact ? e != cur : cur && !e) pbt_fail(P, "visible", "attempt %d: errno_tx is %d, %s %d", att_cur, e, exact ? "expected" : "library calls must not reset it from", cur);
        cur = e;
        return;
    }
    case 2: T("save_errno "); picotm_libc_save_errno(); return;
    case 3: break;
    }
    att_allow(-2, -1);
    att_redo = !picotm_is_irrevocable();    /* some of the calls restart the transaction irrevocably */
    /* library calls save errno themselves; the model does not touch it */
    switch (o->x) {
    case 0: libcall("open+close"); fd = open_tx(path, O_RDWR); close_tx(fd); break;
    case 1: libcall("open missing"); open_tx(missing, O_RDWR); break;
    case 2: libcall("close bad"); close_tx(900); break;
    case 3: libcall("chdir missing"); chdir_tx(missing); break;
    case 4: libcall("mkdir existing"); mkdir_tx(dirp, 0700); break;
    case 5: libcall("stat missing"); stat_tx(missing, &stt); break;
    case 6: libcall("stat"); stat_tx(path, &stt); break;
    case 7: libcall("link missing"); link_tx(missing, dirp); break;
    case 8: libcall("read bad"); read_tx(900, buf, 1); break;
    case 9: libcall("lseek bad whence"); fd = open_tx(path, O_RDWR); lseek_tx(fd, 0, 99); break;
    case 10: libcall("malloc too large"); malloc_tx(SIZE_MAX / 2); break;
    case 11: libcall("malloc+free"); free_tx(malloc_tx(10)); break;
    case 12: libcall("sqrt(-1)"); { volatile double r = sqrt_tx(-1); (void)r; } break;
    case 13: libcall("sqrt(4)"); { volatile double r = sqrt_tx(4); (void)r; } break;
    case 14: libcall("exp overflow"); { volatile double r = exp_tx(1e6); (void)r; } break;
    case 15: libcall("log(0)"); { volatile double r = log_tx(0); (void)r; } break;
    case 16: libcall("socket bad"); socket_tx(999, SOCK_STREAM, 0); break;
    case 17: libcall("setlocale bad"); setlocale_tx(LC_ALL, "bogus"); break;
    case 18: libcall("newlocale bad"); newlocale_tx(LC_ALL_MASK, "bogus", (locale_t)0); break;
    case 19: libcall("dup bad"); dup_tx(900); break;
    case 20: libcall("snprintf"); snprintf_tx(buf, sizeof(buf), "%d", 5); break;
    case 21: libcall("sscanf"); sscanf_tx("7", "%d", &fd); break;
    case 22: if (1) break; libcall("write rdonly"); fd = open_tx(path, O_RDONLY); write_tx(fd, buf, 1); break;
    case 23: libcall("pread+pwrite"); fd = open_tx(path, O_RDWR); pread_tx(fd, buf, 1, 0); pwrite_tx(fd, "x", 1, 0); break;
    case 24: libcall("mkdir"); { char d[320]; snprintf(d, sizeof(d), "%s/d%d", pbt_scratch(), o->v % 5); mkdir_tx(d, 0700); } break;
    case 25: libcall("getcwd"); getcwd_tx(buf, 2); break;
    case 26: libcall("fchmod"); fd = open_tx(path, O_RDWR); fchmod_tx(fd, 0600); break;
    case 27: libcall("pow"); { volatile double r = pow_tx(2, 0.5); (void)r; } break;
    case 28: libcall("sched_yield"); sched_yield_tx(); break;
    case 29: libcall("strdup+realloc"); realloc_tx(strdup_tx("abc"), 100); break;
    case 30: libcall("strerror_r unknown"); __strerror_r_posix_tx(9999, buf, sizeof(buf)); break;
    case 31: libcall("chdir"); chdir_tx(dirp); break;
    case 32: libcall("fcntl bad"); fcntl_tx(900, F_GETFL); break;
    case 33: libcall("fcntl invalid"); fcntl_tx(ro, F_DUPFD, -1); break;
    case 34: libcall("snprintf wide"); { static const wchar_t w[] = { 0xd801, 0 }; snprintf_tx(buf, sizeof(buf), "%ls", w); } break;
    case 35: libcall("snprintf width"); snprintf_tx(buf, sizeof(buf), "%2147483648d", 1); break;
    case 36: libcall("sscanf range"); { static long l; sscanf_tx("99999999999999999999999", "%ld", &l); } break;
    case 37: libcall("mkdtemp template"); strcpy(buf, "abc"); mkdtemp_tx(buf); break;
    case 38: libcall("mkstemp template"); strcpy(buf, "abc"); mkstemp_tx(buf); break;
    case 39: libcall("posix_memalign"); { static void* q; posix_memalign_tx(&q, o->v & 1 ? 3 : 64, o->v & 1 ? 10 : SIZE_MAX / 2); } break;
    case 40: libcall("calloc too large"); calloc_tx(SIZE_MAX / 4, o->v & 1 ? 2 : 100); break;
    case 41: libcall("realloc too large"); realloc_tx(NULL, SIZE_MAX / 2); break;
    case 42: libcall("accept"); accept_tx(o->v & 1 ? 900 : ro, NULL, NULL); break;
    case 43: libcall("bind"); { static struct sockaddr a; bind_tx(o->v & 1 ? 900 : ro, &a, sizeof a); } break;
    case 44: libcall("connect"); { static struct sockaddr a; connect_tx(o->v & 1 ? 900 : ro, &a, sizeof a); } break;
    case 45: libcall("recv"); recv_tx(o->v & 1 ? 900 : ro, buf, 1, 0); break;
    case 46: libcall("send"); send_tx(o->v & 1 ? 900 : ro, buf, 1, 0); break;
    case 47: libcall("listen"); listen_tx(o->v & 1 ? 900 : ro, 1); break;
    case 48: libcall("shutdown"); shutdown_tx(o->v & 1 ? 900 : ro, SHUT_RD); break;
    case 49: libcall("chmod missing"); chmod_tx(missing, 0600); break;
    case 50: libcall("fstat bad"); fstat_tx(900, &stt); break;
    case 51: libcall("lstat missing"); lstat_tx(missing, &stt); break;
    case 52: libcall("mkfifo existing"); mkfifo_tx(dirp, 0600); break;
    case 53: libcall("mknod existing"); mknod_tx(dirp, S_IFREG | 0600, 0); break;
    case 54: libcall("fchmod bad"); fchmod_tx(900, 0600); break;
    case 55: libcall("pipe limit"); { static int pp[2]; few(true); pipe_tx(pp); } break;
    case 56: libcall("pread bad"); pread_tx(o->v & 1 ? 900 : ro, buf, 1, o->v & 1 ? 0 : -1); break;
    case 57: libcall("pwrite bad"); pwrite_tx(900, buf, 1, 0); break;
    case 58: libcall("write bad"); write_tx(900, buf, 1); break;
    case 59: libcall("lseek bad"); lseek_tx(o->v & 1 ? 900 : ro, -1, SEEK_SET); break;
    case 60: libcall("fsync bad"); fsync_tx(900); break;
    case 61: libcall("unlink missing"); unlink_tx(missing); break;
    case 62: libcall("dup2 bad"); dup2_tx(900, 901); break;
    case 63: libcall("fchdir bad"); fchdir_tx(o->v & 1 ? 900 : ro); break;
    case 64: libcall("open limit"); few(true); open_tx(path, O_RDWR); break;
    case 65: libcall("dup limit"); few(true); dup_tx(ro); break;
    case 66: libcall("socket limit"); few(true); socket_tx(AF_UNIX, SOCK_STREAM, 0); break;
    case 67: libcall("read device"); lseek_tx(ro, 0, SEEK_END); break;
    case 68: libcall("setlocale long"); { static char l[400]; memset(l, 'x', 399); setlocale_tx(LC_CTYPE, l); } break;
    case 69: libcall("lstat"); lstat_tx(path, &stt); break;
    case 70: libcall("fstat"); fstat_tx(ro, &stt); break;
    case 71: libcall("malloc"); free_tx(malloc_tx(300)); break;
    }
    att_exp_status = -1;
    few(false);
}

static void att_start(void)
{
    few(false);
    cur = e0; exact = 1; modified = 0;
    T(" attempt: ");
}
static void att_finish_body(void) { T("=> %s\n", att_endname[att[att_cur].end]); }
static void att_committed(void)
{
    int e = saved_end;
    if (exact ? e != cur : cur && !e)
        pbt_fail(P, "commit", "attempt %d: errno is %d after commit, %s %d", att_cur, e, exact ? "expected" : "library calls must not reset it from", cur);
}
static void att_rolledback(void)
{
    int e = att_recovered ? saved_end : errno;
    if (modified) pbt_nontrivial(P);
    if (e != e0) pbt_fail(P, "rollback", "errno is %d after roll-back of attempt %d, %d before the transaction", e, att_recovered ? att_cur : att_cur - 1, e0);
}

static void gen(struct pbt* p, struct aop* o)
{
    o->k = PBT_W(p, 3, 2, 1, 6);
    o->v = pbt_chance(p, 1, 6) ? 0 : 1 + pbt_draw(p, 140);
    o->x = pbt_draw(p, 72);
}

void prop_case(struct pbt* p)
{
    P = p;
    static int once;
    if (!once) {
        snprintf(path, sizeof(path), "%s/f", pbt_scratch());
        snprintf(missing, sizeof(missing), "%s/none/x", pbt_scratch());
        snprintf(dirp, sizeof(dirp), "%s/dir", pbt_scratch());
        close(open(path, O_RDWR | O_CREAT, 0600));
        mkdir(dirp, 0700);
        ro = open(path, O_RDONLY);
        once = 1;
    }
    char cmd[320];
    for (int i = 0; i < 5; ++i) { snprintf(cmd, sizeof(cmd), "%s/d%d", pbt_scratch(), i); rmdir(cmd); }
    if (chdir(pbt_scratch())) abort();
    int ntx = 1 + pbt_draw(p, 6);
    for (int t = 0; t < ntx; ++t) {
        att_gen(p, gen, NULL);
        e0 = pbt_chance(p, 1, 4) ? 0 : 1 + pbt_draw(p, 140);
        T("tx %d errno %d\n", t, e0);
        att_run();
    }
}
