/* F05: descriptors of every type of file - directories, regular files, FIFOs, sockets, devices - and every
 * operation on each, including those that do not apply. Each operation is executed immediately on a
 * shadow object of the same type. */
#define _GNU_SOURCE
#include "pbt.h"
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <picotm/picotm-tm.h>
#include <picotm/picotm-libc.h>
#include <picotm/fcntl.h>
#include <picotm/unistd.h>
#include <picotm/sys/socket.h>
#include <picotm/sys/stat.h>

const char prop_rule[] =
    "(fdany) 2-9 objects: directories, regular files, FIFOs, sockets, /dev/null, /dev/zero with generated flags and "
    "permissions; 1-5 transactions with 1-10 operations per attempt on descriptors of any type, whether or not the operation "
    "applies to it: fstat, fchmod, fcntl (flags, owner, record locks, unknown commands), fsync, seeking, reading and writing, "
    "all socket calls, open, dup, close; commit, errors, conflicts, irrevocability, recovery+restart. Oracle: the kernel, on shadow "
    "objects: results, errors, modes, flags, owners, locks and open descriptors after commit and after roll-back. "
    "Non-trivial: effects on two types of files.";

enum { ATT_MAXOPS = 10 };
struct aop { int k; unsigned s, x, y; int n; };
#define ATT_NOPS(p) (2 + pbt_draw(p, ATT_MAXOPS - 1))
#include "att.h"
#define T(...) pbt_trace(P, __VA_ARGS__)
enum { FSTAT, FCHMOD, GETFL, SETFL, GETFD, SETFD, GETOWN, SETOWN, GETLK, SETLK, UNKNOWN, FSYNC, LSEEK, READ, PREAD, PWRITE, WRITE,
       RECV, SEND, BIND, LISTEN, ACCEPT, CONNECT, SHUT, OPEN, DUP, CLOSE, NOPS };
enum { DIRK, REGK, FIFOK, SOCKK, NULLK, ZEROK, NKINDS };
static const char* const kname[] = { "dir", "reg", "fifo", "sock", "null", "zero" };
enum { NO = 9, NS = 12 };
struct obj { int kind; mode_t mode; int lock[2]; };          /* lock: somebody else's record lock: offset, length */
struct ofd { int used, o, fl, own; };
struct slot { int used, g, fd, cloexec; };
static struct obj O[NO]; static int no;
static struct ofd G[NS * 2];
static struct slot S[NS];
static struct vs { int used, closed, g, fd, sfd, ref; } V[NS];
static struct { int used, o; } VG[NS * 2];
static int inuse[NO];       /* descriptor by which the object is in use in this attempt, + 1 */
static int newg, effects, ok, redirty;
static char Rd[100], Sd[100];
static int lkfd[2][NO];
static struct stat stb; static struct flock flb;

static void sys_fail(const char* w) { char b[200]; snprintf(b, sizeof b, "%s: %s", w, strerror(errno)); pbt_inconclusive(P, b); }
#define SYS(x) ({ long r_ = (long)(x); if (r_ < 0) sys_fail(#x); r_; })
static char* path(const char* d, int o)
{
    static char b[4][160]; static int k; k = (k + 1) % 4;
    if (O[o].kind == NULLK) return "/dev/null";
    if (O[o].kind == ZEROK) return "/dev/zero";
    snprintf(b[k], sizeof b[k], "%s/o%d", d, o);
    return b[k];
}
static int hi(int fd) { int n = SYS(fcntl(fd, F_DUPFD, 300)); close(fd); return n; }
static void wipe(const char* d) { char b[160]; for (int i = 0; i < NO; ++i) { snprintf(b, sizeof b, "%s/o%d", d, i); unlink(b); rmdir(b); } for (int i = 0; i < 4; ++i) { snprintf(b, sizeof b, "%s/b%d", d, i); unlink(b); } }
static void create(const char* d, int o)
{
    char* p = path(d, o);
    switch (O[o].kind) {
    case DIRK: SYS(mkdir(p, 0700)); SYS(chmod(p, O[o].mode)); break;
    case REGK: { int fd = SYS(open(p, O_CREAT | O_EXCL | O_RDWR, 0600)); SYS(write(fd, "0123456789abcdef", 16)); SYS(fchmod(fd, O[o].mode)); close(fd); break; }
    case FIFOK: SYS(mkfifo(p, 0600)); SYS(chmod(p, O[o].mode)); break;
    default: break;
    }
}
static int sopen(const char* d, int o, int fl)
{
    if (O[o].kind == SOCKK) { int fd = SYS(socket(AF_UNIX, SOCK_STREAM, 0)); SYS(fcntl(fd, F_SETFL, fl & O_NONBLOCK)); return fd; }
    int fd = SYS(open(path(d, o), (fl & ~O_CREAT) | (O[o].kind == FIFOK ? O_NONBLOCK : 0)));
    if (O[o].kind == FIFOK && !(fl & O_NONBLOCK)) SYS(fcntl(fd, F_SETFL, fl));
    return fd;
}
static void shadow_drop(void)
{
    for (int i = 0; i < NS; ++i) if (V[i].used && V[i].sfd >= 0) { close(V[i].sfd); V[i].sfd = -1; }
    for (int i = 0; i < no; ++i) if (lkfd[1][i] > 0) { close(lkfd[1][i]); lkfd[1][i] = -1; }
}
static void lockobj(const char* d, int w, int o)
{
    lkfd[w][o] = -1;
    if (O[o].kind != REGK || O[o].lock[0] < 0) return;
    lkfd[w][o] = hi(SYS(open(path(d, o), O_RDWR)));
    struct flock l = { .l_type = F_WRLCK, .l_whence = SEEK_SET, .l_start = O[o].lock[0], .l_len = O[o].lock[1] };
    SYS(fcntl(lkfd[w][o], F_OFD_SETLK, &l));
}

static void att_start(void)
{
    shadow_drop();
    wipe(Sd);
    for (int i = 0; i < no; ++i) { create(Sd, i); lockobj(Sd, 1, i); inuse[i] = 0; }
    memset(VG, 0, sizeof VG);
    int of[NS * 2];
    for (int i = 0; i < NS * 2; ++i) of[i] = -1;
    memset(V, 0, sizeof V);
    for (int i = 0; i < NS; ++i) {
        if (!S[i].used) continue;
        int g = S[i].g;
        V[i] = (struct vs){ 1, 0, g, S[i].fd, -1, 0 };
        VG[g].used = 1; VG[g].o = G[g].o;
        if (of[g] < 0) {
            of[g] = V[i].sfd = hi(sopen(Sd, G[g].o, G[g].fl));
            if (G[g].own) SYS(fcntl(of[g], F_SETOWN, G[g].own));
        } else V[i].sfd = SYS(fcntl(of[g], F_DUPFD, 300));
        SYS(fcntl(V[i].sfd, F_SETFD, S[i].cloexec));
    }
    newg = NS; effects = 0;
    memset(&stb, 0x44, sizeof stb); memset(&flb, 0x45, sizeof flb);
    T(" attempt: ");
}
static void att_finish_body(void) { T("=> %s\n", att_noundo ? "commit" : att_endname[att[att_cur].end]); }
static int getown(int fd) { return fcntl(fd, F_GETOWN); }

static void compare(const char* when)
{
    for (int i = 0; i < NS; ++i) {
        if (!S[i].used) continue;
        struct ofd* g = &G[S[i].g];
        struct obj* o = &O[g->o];
        struct stat st;
        int fd = S[i].fd;
        if (fstat(fd, &st)) pbt_fail(P, "closed", "attempt %d: %s: descriptor %d (%s) is closed", att_cur, when, fd, kname[o->kind]);
        if (fcntl(fd, F_GETFL) != g->fl) pbt_fail(P, "flags", "attempt %d: %s: descriptor %d (%s) has status flags %#x, expected %#x", att_cur, when, fd, kname[o->kind], fcntl(fd, F_GETFL), g->fl);
        if (fcntl(fd, F_GETFD) != S[i].cloexec) pbt_fail(P, "cloexec", "attempt %d: %s: descriptor %d (%s) has descriptor flags %#x, expected %#x", att_cur, when, fd, kname[o->kind], fcntl(fd, F_GETFD), S[i].cloexec);
        if (getown(fd) != g->own) pbt_fail(P, "owner", "attempt %d: %s: descriptor %d (%s) has owner %d, expected %d", att_cur, when, fd, kname[o->kind], getown(fd), g->own);
    }
    for (int i = 0; i < no; ++i) if (O[i].kind <= FIFOK) {
        struct stat st;
        SYS(stat(path(Rd, i), &st));
        if ((st.st_mode & 07777) != O[i].mode) pbt_fail(P, "mode", "attempt %d: %s: %s %d has mode %o, expected %o", att_cur, when, kname[O[i].kind], i, st.st_mode & 07777, O[i].mode);
        if (O[i].kind == REGK && st.st_size != 16) pbt_fail(P, "size", "attempt %d: %s: file %d has %ld bytes", att_cur, when, i, (long)st.st_size);
    }
    for (int fd = 3; fd < 290; ++fd) {
        int i; for (i = 0; i < NS; ++i) if (S[i].used && S[i].fd == fd) break;
        char l[60], t[200];
        snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
        ssize_t n = i == NS ? readlink(l, t, sizeof t - 1) : 0;
        if (n <= 0) continue;
        t[n] = 0;
        if (!strncmp(t, Rd, strlen(Rd)) || (redirty && !strncmp(t, "socket", 6))) pbt_fail(P, "leak", "attempt %d: %s: descriptor %d is open (%s)", att_cur, when, fd, t);
    }
}
static void att_committed(void)
{
    struct slot s2[NS]; memset(s2, 0, sizeof s2);
    struct ofd g2[NS * 2]; memset(g2, 0, sizeof g2);
    int map[NS * 2], n = 0;
    for (int i = 0; i < NS * 2; ++i) map[i] = -1;
    for (int i = 0; i < NS; ++i) {
        struct vs* v = &V[i];
        if (!v->used) continue;
        if (v->closed) {
            int alive = 0;
            for (int j = 0; j < NS; ++j) if (V[j].used && !V[j].closed && V[j].fd == v->fd) alive = 1;
            if (!alive && fcntl(v->fd, F_GETFD) >= 0) pbt_fail(P, "not-closed", "attempt %d: descriptor %d is open after the commit of its close()", att_cur, v->fd);
            continue;
        }
        if (map[v->g] < 0) {
            map[v->g] = n;
            g2[n++] = (struct ofd){ 1, VG[v->g].o, fcntl(v->sfd, F_GETFL), getown(v->sfd) };
        }
        s2[i] = (struct slot){ 1, map[v->g], v->fd, fcntl(v->sfd, F_GETFD) };
    }
    for (int i = 0; i < no; ++i) if (O[i].kind <= FIFOK) { struct stat st; SYS(stat(path(Sd, i), &st)); O[i].mode = st.st_mode & 07777; }
    memcpy(S, s2, sizeof S); memcpy(G, g2, sizeof G);
    if (effects & (effects - 1)) ok |= 1;
    compare("after commit");
}
static void att_rolledback(void)
{
    for (unsigned i = 0; i < sizeof stb; ++i) if (((char*)&stb)[i] != 0x44) pbt_fail(P, "buffer", "attempt %d: after roll-back: byte %u of the buffer given to fstat is %d", att_cur, i, ((char*)&stb)[i]);
    for (unsigned i = 0; i < sizeof flb; ++i) if (((char*)&flb)[i] != 0x45) pbt_fail(P, "buffer", "attempt %d: after roll-back: byte %u of the record lock given to fcntl is %d", att_cur, i, ((char*)&flb)[i]);
    if (effects & (effects - 1)) ok |= 2;
    compare("after roll-back");
}

/* declares the expected outcome; false: don't run the operation. tol: picotm does not offer the operation
 * for this type of file and may report this instead */
static int rare;     /* leave out operations that fail */
static bool expect(struct vs* v, long sr, int e, int tol, int irrev)
{
    int o = VG[v->g].o, ref = !v->ref && inuse[o] && inuse[o] != v->fd + 1;      /* in use through another descriptor */
    if ((att_noundo || rare) && (ref || sr < 0 || tol)) return false;
    if (ref) att_allow(PICOTM_ERRNO, sr < 0 || tol ? -1 : EBADF);
    else if (sr < 0) att_expect(PICOTM_ERRNO, tol && tol != e ? -1 : e);
    else if (tol) att_allow(PICOTM_ERRNO, tol);
    if (irrev && !picotm_is_irrevocable()) att_redo = 1;
    return true;
}
static void use(struct vs* v) { v->ref = 1; inuse[VG[v->g].o] = v->fd + 1; }
static void irrev_done(const char* what)
{
    if (!picotm_is_irrevocable()) pbt_fail(P, "revocable", "%s succeeded in a transaction that can still be rolled back", what);
    att_noundo = 1;
}
static void same(const char* what, int fd, long real, long shadow)
{
    if (real != shadow) pbt_fail(P, what, "attempt %d: %s(%d) returned %ld, immediate execution returns %ld", att_cur, what, fd, real, shadow);
}
static void chk_new(int fd, const char* w)
{
    if (fd < 0) pbt_fail(P, w, "attempt %d: %s returned %d", att_cur, w, fd);
    for (int i = 0; i < NS; ++i) if (V[i].used && V[i].fd == fd) pbt_fail(P, w, "attempt %d: %s returned descriptor %d, which is in use", att_cur, w, fd);
}
static int free_slot(void) { for (int i = 0; i < NS; ++i) if (!V[i].used) return i; return -1; }

static void att_op(struct aop* o)
{
    static unsigned char rb[64], sb[64];
    int i = free_slot();
    rare = o->y / 64 % 8 != 0;
    if (o->k == OPEN) {
        int ob = o->s % no, used = 0;
        for (int j = 0; j < NS; ++j) used |= V[j].used && VG[V[j].g].o == ob;
        if (i < 0 || used || inuse[ob]) return;
        int k = O[ob].kind;
        static const int acc[] = { O_RDONLY, O_RDWR, O_WRONLY, O_RDWR };
        int fl = acc[o->x % 4] | (o->x & 4 ? O_NONBLOCK : 0) | (o->x & 8 ? O_CLOEXEC : 0) | (o->x % 128 == 16 ? O_DIRECTORY : 0);
        if (k == DIRK && o->x / 32 % 16) fl &= ~O_ACCMODE;
        if (k == FIFOK && (fl & O_ACCMODE) != O_RDWR) fl |= O_NONBLOCK;
        if (k == FIFOK && (fl & O_ACCMODE) == O_WRONLY) fl = (fl & ~O_ACCMODE) | O_RDWR;
        long sr; int e;
        if (k == SOCKK) { fl = 0; sr = socket(AF_UNIX, SOCK_STREAM, 0); e = errno; }
        else { sr = open(path(Sd, ob), fl); e = errno; }
        if (sr >= 0) { int h = SYS(fcntl(sr, fl & O_CLOEXEC ? F_DUPFD_CLOEXEC : F_DUPFD, 300)); close(sr); sr = h; }
        else { if (att_noundo || rare) return; att_expect(PICOTM_ERRNO, e); }
        T("open(%s %d,%#x)", kname[k], ob, fl);
        int r = k == SOCKK ? socket_tx(AF_UNIX, SOCK_STREAM, 0) : open_tx(path(Rd, ob), fl);
        T("=%d ", r);
        if (sr < 0) return;
        chk_new(r, "open");
        VG[newg].used = 1; VG[newg].o = ob;
        V[i] = (struct vs){ 1, 0, newg++, r, sr, 1 };
        if (newg > 2 * NS - 1) newg = 2 * NS - 1;
        inuse[ob] = r + 1;
        effects |= 1 << k;
        return;
    }
    struct vs* v = NULL;
    for (int t = 0; t < NS; ++t) { struct vs* w = &V[(o->s + t) % NS]; if (w->used && !w->closed) { v = w; break; } }
    if (!v) return;
    int ob = VG[v->g].o, k = O[ob].kind, fd = v->fd, sfd = v->sfd, dev = k >= NULLK;
    if (!v->ref && inuse[ob] && inuse[ob] != fd + 1 && (o->y % 8 || rare || att_noundo)) return;     /* before the shadow changes */
    int nosock = k != SOCKK;
    long sr, r; int e;
    errno = 0;
#define RUN(what, tol, irrev) do { if (!expect(v, sr, e, tol, irrev)) return; T("%s(%d) ", what, fd); } while (0)
    switch (o->k) {
    case FSTAT: {
        struct stat st;
        sr = fstat(sfd, &st); e = errno;
        RUN("fstat", 0, 0);
        r = fstat_tx(fd, &stb);
        same("fstat", fd, r, sr);
        struct stat sk; SYS(fstat(fd, &sk));
        static struct stat g; load_tx(&stb, &g, sizeof g);
        if (g.st_mode != st.st_mode || g.st_ino != sk.st_ino || g.st_dev != sk.st_dev || g.st_rdev != sk.st_rdev || g.st_size != st.st_size)
            pbt_fail(P, "fstat", "attempt %d: fstat(%d): mode %o size %ld, expected mode %o size %ld", att_cur, fd, g.st_mode, (long)g.st_size, st.st_mode, (long)st.st_size);
        break;
    }
    case FCHMOD: {
        mode_t m = 0500 | (o->x & 0277);
        if (dev || !nosock || k == FIFOK) {     /* not offered; never done to a real device */
            if (att_noundo) return;
            sr = -1; e = EINVAL;
            if (dev) m = 0666;
        } else { sr = fchmod(sfd, m); e = errno; }
        RUN("fchmod", 0, 0);
        r = fchmod_tx(fd, m);
        same("fchmod", fd, r, sr);
        effects |= 1 << k;
        break;
    }
    case GETFL: case GETFD: case GETOWN: {
        int c = o->k == GETFL ? F_GETFL : o->k == GETFD ? F_GETFD : F_GETOWN;
        sr = fcntl(sfd, c); e = errno;
        RUN(o->k == GETFL ? "getfl" : o->k == GETFD ? "getfd" : "getown", 0, 0);
        same("fcntl", fd, fcntl_tx(fd, c), sr);
        break;
    }
    case SETFL: case SETFD: case SETOWN: {
        int c = o->k == SETFL ? F_SETFL : o->k == SETFD ? F_SETFD : F_SETOWN;
        int a = c == F_SETFL ? (fcntl(sfd, F_GETFL) & ~O_NONBLOCK) | (o->x & 1 ? O_NONBLOCK : 0) : c == F_SETFD ? (int)(o->x & 1) : o->x & 1 ? (int)getpid() : 0;
        if (k == FIFOK && c == F_SETFL) a |= O_NONBLOCK;
        sr = fcntl(sfd, c, a); e = errno;
        RUN(o->k == SETFL ? "setfl" : o->k == SETFD ? "setfd" : "setown", 0, sr >= 0);
        r = fcntl_tx(fd, c, a);
        same("fcntl", fd, r, sr);
        irrev_done("fcntl");
        effects |= 1 << k;
        break;
    }
    case GETLK: case SETLK: {
        struct flock l = { .l_type = o->x % 4 == 0 ? F_UNLCK : o->x % 4 == 1 ? F_RDLCK : F_WRLCK, .l_whence = o->x / 4 % 8 == 0 ? SEEK_END : SEEK_SET, .l_start = o->x / 32 % 20, .l_len = o->y / 16 % 8 };
        if (o->k == GETLK && l.l_type == F_UNLCK) l.l_type = F_WRLCK;
        if (o->k == SETLK && !nosock) return;
        struct flock q = l;
        sr = fcntl(sfd, o->k == GETLK ? F_GETLK : F_SETLK, &q); e = errno;
        if (o->k == SETLK && dev) { q = (struct flock){ .l_type = F_UNLCK }; fcntl(sfd, F_SETLK, &q); return; }
        RUN(o->k == GETLK ? "getlk" : "setlk", 0, o->k == SETLK);
        T("[type %d whence %d start %ld len %ld] ", l.l_type, l.l_whence, (long)l.l_start, (long)l.l_len);
        store_tx(&flb, &l, sizeof l);
        r = fcntl_tx(fd, o->k == GETLK ? F_GETLK : F_SETLK, &flb);
        same("fcntl(record lock)", fd, r, sr);
        struct flock g; load_tx(&flb, &g, sizeof g);
        if (o->k == GETLK ? g.l_type != q.l_type || g.l_start != q.l_start || g.l_len != q.l_len || g.l_whence != q.l_whence || g.l_pid != q.l_pid : memcmp(&g, &l, sizeof g))
            pbt_fail(P, "getlk", "attempt %d: record lock of descriptor %d: type %d start %ld length %ld, expected type %d start %ld length %ld", att_cur, fd, g.l_type, (long)g.l_start, (long)g.l_len, q.l_type, (long)q.l_start, (long)q.l_len);
        if (o->k == SETLK) { irrev_done("F_SETLK"); effects |= 1 << k; }
        break;
    }
    case UNKNOWN:
        if (o->y / 16 % 4) return;
        sr = -1; e = EINVAL;
        RUN("fcntl-unknown", 0, 0);
        fcntl_tx(fd, 7777);
        return;
    case FSYNC:
        sr = fsync(sfd); e = errno;
        if (sr >= 0 && o->y / 16 % 4) return;
        RUN("fsync", 0, 0);
        same("fsync", fd, fsync_tx(fd), sr);
        break;
    case LSEEK: {
        if (k == REGK) return;          /* see fio */
        sr = lseek(sfd, 0, SEEK_CUR); e = errno;
        RUN("lseek", k == DIRK ? EINVAL : dev ? ESPIPE : 0, 0);
        same("lseek", fd, lseek_tx(fd, 0, SEEK_CUR), sr);
        break;
    }
    case READ: case PREAD: {
        if (k == FIFOK && o->k == READ) return;
        int n = o->k == READ && dev && o->n % 4 == 0 ? 0 : 1 + o->n % 40;
        memset(rb, 0xee, sizeof rb); memset(sb, 0xee, sizeof sb);
        if (k == REGK && o->k == READ) return;
        if (k == SOCKK && o->k == READ) { sr = -1; e = 0; if (att_noundo) return; struct flock z; (void)z; sr = read(sfd, sb, n); e = errno; }
        else { sr = o->k == READ ? read(sfd, sb, n) : pread(sfd, sb, n, 2); e = errno; }
        if (n == 0 && sr < 0) return;
        RUN(o->k == READ ? "read" : "pread", o->k == PREAD && dev ? ESPIPE : k == DIRK ? EISDIR : 0, k == SOCKK || dev);
        r = o->k == READ ? read_tx(fd, rb, n) : pread_tx(fd, rb, n, 2);
        same("read", fd, r, sr);
        if (memcmp(rb, sb, sizeof rb)) pbt_fail(P, "read-data", "attempt %d: wrong bytes read from descriptor %d (%s)", att_cur, fd, kname[k]);
        if (picotm_is_irrevocable() && (dev || k == SOCKK)) att_noundo = 1;
        break;
    }
    case WRITE: case PWRITE: {
        if (k == REGK || (o->k == WRITE && k != DIRK && k != NULLK)) return;
        int n = 1 + o->n % 40;
        sr = o->k == WRITE ? write(sfd, sb, n) : pwrite(sfd, sb, n, 2); e = errno;
        RUN(o->k == WRITE ? "write" : "pwrite", k == DIRK ? EISDIR : o->k == PWRITE && dev ? ESPIPE : 0, 0);
        r = o->k == WRITE ? write_tx(fd, sb, n) : pwrite_tx(fd, sb, n, 2);
        same("write", fd, r, sr);
        if (picotm_is_irrevocable()) att_noundo = 1;
        break;
    }
    case RECV: case SEND: {
        if (o->k == SEND && k == SOCKK) return;
        sr = o->k == RECV ? recv(sfd, sb, 5, 0) : send(sfd, sb, 5, 0); e = errno;
        if (sr >= 0) return;
        RUN(o->k == RECV ? "recv" : "send", 0, !nosock);
        r = o->k == RECV ? recv_tx(fd, rb, 5, 0) : send_tx(fd, sb, 5, 0);
        same("recv/send", fd, r, sr);
        break;
    }
    case BIND: case CONNECT: {
        struct sockaddr_un a = { .sun_family = AF_UNIX };
        static struct sockaddr_un b; b.sun_family = AF_UNIX;
        if (o->k == BIND && O[0].kind > FIFOK) return;
        if (o->k == BIND) {     /* to a name that exists; errors only */
            snprintf(a.sun_path, sizeof a.sun_path, "%s", path(Sd, 0)); snprintf(b.sun_path, sizeof b.sun_path, "%s", path(Rd, 0));
        } else { snprintf(a.sun_path, sizeof a.sun_path, "%s/none", Sd); snprintf(b.sun_path, sizeof b.sun_path, "%s/none", Rd); }
        sr = o->k == BIND ? bind(sfd, (void*)&a, sizeof a) : connect(sfd, (void*)&a, sizeof a); e = errno;
        if (sr >= 0) return;
        RUN(o->k == BIND ? "bind" : "connect", 0, !nosock);
        r = o->k == BIND ? bind_tx(fd, (void*)&b, sizeof b) : connect_tx(fd, (void*)&b, sizeof b);
        same("bind/connect", fd, r, sr);
        break;
    }
    case LISTEN: case ACCEPT: case SHUT:
        sr = o->k == LISTEN ? listen(sfd, 3) : o->k == ACCEPT ? accept(sfd, NULL, NULL) : shutdown(sfd, SHUT_RDWR); e = errno;
        if (sr >= 0) return;
        RUN(o->k == LISTEN ? "listen" : o->k == ACCEPT ? "accept" : "shutdown", 0, !nosock);
        r = o->k == LISTEN ? listen_tx(fd, 3) : o->k == ACCEPT ? accept_tx(fd, NULL, NULL) : shutdown_tx(fd, SHUT_RDWR);
        same("socket call", fd, r, sr);
        break;
    case DUP:
        if (i < 0) return;
        sr = SYS(fcntl(sfd, F_DUPFD, 300)); e = 0;
        V[i].sfd = sr;
        RUN("dup", 0, 0);
        r = dup_tx(fd);
        T("[=%ld] ", r);
        chk_new(r, "dup");
        use(v);
        V[i] = (struct vs){ 1, 0, v->g, r, sr, 1 };
        effects |= 1 << k;
        return;
    case CLOSE:
        if (o->y / 16 % 2) return;
        sr = 0; e = 0;
        RUN("close", 0, 0);
        same("close", fd, close_tx(fd), 0);
        use(v);
        close(v->sfd); v->sfd = -1;
        v->closed = 1;
        effects |= 1 << k;
        return;
    }
    use(v);
}

static void gen(struct pbt* p, struct aop* o)
{
    o->k = PBT_W(p, 4, 6, 2, 3, 2, 2, 1, 1, 3, 2, 1, 1, 2, 3, 2, 2, 2, 1, 1, 1, 1, 1, 1, 1, 6, 4, 5);
    o->s = pbt_draw(p, 400);
    o->n = pbt_draw(p, 40);
    o->x = pbt_draw(p, 1 << 12);
    o->y = pbt_draw(p, 1 << 12);
}

void prop_case(struct pbt* p)
{
    P = p;
    umask(022);
    snprintf(Rd, sizeof Rd, "%s/r", pbt_scratch()); snprintf(Sd, sizeof Sd, "%s/s", pbt_scratch());
    mkdir(Rd, 0700); mkdir(Sd, 0700);
    for (int i = 0; i < NS; ++i) if (S[i].used) S[i].used = 0;
    memset(S, 0, sizeof S); memset(G, 0, sizeof G); memset(V, 0, sizeof V);
    wipe(Rd); wipe(Sd);
    redirty = 1;
    for (int fd = 3; fd < 290; ++fd) { char l[60], t[60]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd); ssize_t n = readlink(l, t, 59); if (n > 6 && !strncmp(t, "socket", 6)) redirty = 0; }
    ok = 0;
    no = 2 + pbt_draw(p, NO - 1);
    bool had[NKINDS] = { false };
    for (int i = 0; i < no; ++i) {
        int k = PBT_W(p, 4, 3, 2, 2, 1, 1);
        if (k >= NULLK && had[k]) k = DIRK;
        had[k] = true;
        O[i] = (struct obj){ k, 0500 | (mode_t)pbt_draw(p, 0277), { -1, 0 } };
        if (k == REGK) O[i].mode |= 0200;
        if (k == REGK && pbt_chance(p, 1, 2)) { O[i].lock[0] = pbt_draw(p, 20); O[i].lock[1] = pbt_draw(p, 8); }
        create(Rd, i);
        lockobj(Rd, 0, i);
        lkfd[1][i] = -1;
        if (pbt_chance(p, 1, 3)) { T("%s %d (mode %o)\n", kname[k], i, O[i].mode); continue; }
        static const int acc[] = { O_RDWR, O_RDONLY, O_WRONLY };
        int fl = k == DIRK ? O_RDONLY | (pbt_chance(p, 1, 2) ? O_DIRECTORY : 0) : k == FIFOK ? O_RDWR | O_NONBLOCK : acc[pbt_draw(p, 3)] | (pbt_chance(p, 1, 4) ? O_NONBLOCK : 0);
        int fd = sopen(Rd, i, fl);
        G[i] = (struct ofd){ 1, i, (int)SYS(fcntl(fd, F_GETFL)), 0 };
        S[i] = (struct slot){ 1, i, fd, (int)pbt_draw(p, 2) };
        SYS(fcntl(fd, F_SETFD, S[i].cloexec));
        T("%s %d (mode %o): descriptor %d flags %#x\n", kname[k], i, O[i].mode, fd, G[i].fl);
    }
    int ntx = 1 + pbt_draw(p, 5);
    for (int t = 0; t < ntx; ++t) { att_gen(p, gen, NULL); T("tx %d\n", t); att_run(); }
    shadow_drop();
    for (int i = 0; i < NS; ++i) if (S[i].used) close(S[i].fd);
    for (int i = 0; i < no; ++i) if (lkfd[0][i] > 0) close(lkfd[0][i]);
    if (ok) pbt_nontrivial(p);
}
