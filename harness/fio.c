/* F01, F02, F05: transactional file I/O against the kernel. Every operation is executed immediately on
 * a shadow copy of the files (with descriptors of the same kind), and transactionally on the real
 * ones: results, errors and data must agree; after commit the real files, descriptors and offsets
 * must equal the shadow's; after roll-back the ones from before. */
#define _GNU_SOURCE
#include "pbt.h"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <picotm/picotm-tm.h>
#include <picotm/picotm-libc.h>
#include <picotm/fcntl.h>
#include <picotm/unistd.h>
#include <picotm/stdlib.h>
#include <picotm/sys/stat.h>

const char prop_rule[] =
    "6 regular files with 0-120 KiB, 10 descriptor slots opened before with generated access modes and "
    "O_APPEND, duplicated or opened twice; 1-5 transactions with 1-14 operations per attempt: read, write, "
    "pread, pwrite, lseek (all origins, bad ones), fstat, fsync, fchmod, open (O_EXCL, O_APPEND, O_TRUNC), "
    "close, dup, fcntl, mkstemp; offsets and sizes around the data, the end of the file, lock records and "
    "holes; invalid and closed descriptors; commit, errors, conflicts, irrevocability, recovery+restart. "
    "Oracle: the kernel, by executing each operation immediately on a shadow copy. Non-trivial: (F01) a committed "
    "attempt with data written and data read; (F02) an attempt with two kinds of effects was rolled back; (F05) a "
    "committed attempt with two of open, close, dup, mkstemp.";

enum { NF = 6, NS = 10, MAXF = 1 << 17, MAXIO = 24576, ATT_MAXOPS = 14 };
struct aop { int k; unsigned s, f, n, x, y; long off; };
#define ATT_NOPS(p) (2 + pbt_draw(p, ATT_MAXOPS - 1))
#include "att.h"

#define DUP2_SKIP(t) ((t)->refd && pbt_known("dup2-over-used-descriptor"))
enum { READ, WRITE, PREAD, PWRITE, LSEEK, FSTAT, FSYNC, FCHMOD, OPEN, CLOSE, DUP, GETFL, SETFL, GETFD, SETFD, DUPFD, MKSTEMP, OPENTRUNC, DUP2, NOPS };

struct cfile { int exists; mode_t mode; size_t len; unsigned char* data; char rpath[160]; };
struct ofd { int used, f, flags; off_t off; };
struct slot { int used, o, rfd, cloexec; };
static struct cfile F[NF];              /* committed state */
static struct ofd O[NS];
static struct slot S[NS];
/* view of the attempt */
struct vslot { int used, closed, rfd, sfd, f, entry, refd, g; };    /* g: open file description */
static struct vslot V[NS];
static int newg;
static struct { int used, f, fildes; } ent[32];
static struct { int exists; char rpath[160]; } VF[NF];
static char Rd[100], Sd[100];
static int did_w, did_r, did_fd, did_eff, ok_commit, ok_roll, ok_cfd;
static unsigned char* tmpb;
#define T(...) pbt_trace(P, __VA_ARGS__)

static void sys_fail(const char* w) { char b[200]; snprintf(b, sizeof b, "%s: %s", w, strerror(errno)); pbt_inconclusive(P, b); }
#define SYS(x) ({ long r_ = (long)(x); if (r_ < 0) sys_fail(#x); r_; })
static char* spath(int f) { static char b[160]; snprintf(b, sizeof b, "%s/f%d", Sd, f); return b; }

static int hi(int fd, int cloexec)      /* shadow descriptors live above the real ones */
{
    int n = SYS(fcntl(fd, cloexec ? F_DUPFD_CLOEXEC : F_DUPFD, 300));
    close(fd);
    return n;
}

static void shadow_drop(void)
{
    for (int i = 0; i < NS; ++i) if (V[i].sfd > 0) { close(V[i].sfd); V[i].sfd = -1; }
}

static void att_start(void)
{
    shadow_drop();
    memset(ent, 0, sizeof(ent));
    for (int f = 0; f < NF; ++f) {
        unlink(spath(f));
        VF[f].exists = F[f].exists;
        memcpy(VF[f].rpath, F[f].rpath, sizeof(VF[f].rpath));
        if (!F[f].exists) continue;
        int fd = SYS(open(spath(f), O_CREAT | O_EXCL | O_WRONLY, 0600));
        SYS(write(fd, F[f].data, F[f].len));
        SYS(fchmod(fd, F[f].mode));
        close(fd);
    }
    int of[NS];
    for (int o = 0; o < NS; ++o) of[o] = -1;
    for (int i = 0; i < NS; ++i) {
        V[i] = (struct vslot){ .used = S[i].used, .rfd = S[i].used ? S[i].rfd : -1, .sfd = -1 };
        if (!S[i].used) continue;
        struct ofd* o = &O[S[i].o];
        V[i].f = o->f;
        V[i].g = S[i].o;
        if (of[S[i].o] < 0) {
            V[i].sfd = hi(SYS(open(spath(o->f), o->flags)), S[i].cloexec);
            SYS(lseek(V[i].sfd, o->off, SEEK_SET));
            of[S[i].o] = V[i].sfd;
        } else V[i].sfd = SYS(fcntl(of[S[i].o], S[i].cloexec ? F_DUPFD_CLOEXEC : F_DUPFD, 300));
    }
    newg = NS;
    did_w = did_r = did_fd = did_eff = 0;
    T(" attempt: ");
}
static void att_finish_body(void) { T("=> %s\n", att_noundo ? "commit" : att_endname[att[att_cur].end]); }

/* the module refuses descriptors of a file that is in use through another descriptor */
static int refused(struct vslot* v)
{
    if (!v->used || v->refd) return 0;
    for (int i = 0; i < 32; ++i) if (ent[i].used && ent[i].f == v->f && ent[i].fildes != v->rfd) return 1;
    return 0;
}
static void add_ent(int f, int fildes) { for (int i = 0; i < 32; ++i) if (!ent[i].used) { ent[i].used = 1; ent[i].f = f; ent[i].fildes = fildes; return; } }
static void ref(struct vslot* v)
{
    if (!v->used || v->refd) return;
    v->refd = 1; v->entry = v->rfd;
    add_ent(v->f, v->rfd);
}
static int entries_of(int f) { int n = 0; for (int i = 0; i < 32; ++i) n += ent[i].used && ent[i].f == f; return n; }
static int any_errno;
/* declares the expected outcome; false: don't run the operation */
static bool expect(struct vslot* v, long sres, int e, int irrev)
{
    int r = v ? refused(v) : 0;
    if (att_noundo && (r || sres < 0)) { any_errno = 0; return false; }
    if (r) att_allow(PICOTM_ERRNO, sres < 0 ? -1 : EBADF);
    else if (sres < 0 && any_errno == 2) att_allow(PICOTM_ERRNO, -1);      /* an access of no bytes */
    else if (sres < 0) att_expect(PICOTM_ERRNO, any_errno ? -1 : e);        /* several errors at once: any */
    any_errno = 0;
    if (irrev && !picotm_is_irrevocable()) { att_redo = 1; }
    return true;
}
static void irrev_done(const char* what)
{
    if (!picotm_is_irrevocable()) pbt_fail(P, "revocable", "%s succeeded in a transaction that can still be rolled back", what);
    att_noundo = 1;
}
static void same(const char* what, long real, long shadow)
{
    if (real != shadow) pbt_fail(P, what, "attempt %d: %s returned %ld, immediate execution returns %ld", att_cur, what, real, shadow);
}
static int free_slot(void) { for (int i = 0; i < NS; ++i) if (!V[i].used) return i; return -1; }
static void data(unsigned char* b, unsigned n, unsigned seed) { for (unsigned i = 0; i < n; ++i) b[i] = 1 + (seed * 37 + i * (1 + seed % 5) + i / 251) % 255; }
static void chk_rfd(int fd, const char* w)
{
    if (fd < 0) pbt_fail(P, w, "attempt %d: %s returned %d", att_cur, w, fd);
    for (int i = 0; i < NS; ++i) if (V[i].used && V[i].rfd == fd) pbt_fail(P, w, "attempt %d: %s returned descriptor %d, which is in use", att_cur, w, fd);
}

static unsigned char wbuf[MAXIO], rbuf[MAXIO + 16], sbuf[MAXIO + 16];
static char tmpl[160];

static void att_op(struct aop* o)
{
    static const int bad[] = { -1, 900, 1024, 1023, 5000, 1 << 20, 0x7fffffff, -2147483647 - 1 };
    struct vslot* v = &V[o->s % NS];
    int fd = v->used ? v->rfd : bad[o->x % 8];
    int sfd = v->used && !v->closed ? v->sfd : -1;
    unsigned n = o->n % MAXIO;
    off_t off = o->off, size = 0;
    struct stat st;
    if (!v->used && (o->y % 8 || o->y / 8 % 2) && o->k < OPEN) return;
    if (v->used && v->closed && o->y % 4) return;
    if (v->used && !v->closed && (o->k == READ || o->k == PREAD ? fcntl(v->sfd, F_GETFL) & O_WRONLY :
        o->k == WRITE || o->k == PWRITE ? !(fcntl(v->sfd, F_GETFL) & O_ACCMODE) : 0) && o->y / 128 % 8) return;
    if (v->used && refused(v) && (att_noundo || o->y / 64 % 8)) return;
    errno = 0;
    if (sfd >= 0 && !fstat(sfd, &st)) size = st.st_size;
    off_t cur = sfd >= 0 ? lseek(sfd, 0, SEEK_CUR) : 0;
    switch (o->y / 4 % 4) {     /* make offsets relative to something interesting */
    case 0: break;
    case 1: off += size; break;
    case 2: off += cur; break;
    case 3: off = off * 4 + (o->y / 16 % 8) * 1024; break;
    }
    if (off > MAXF) off %= MAXF;
    if (off < 0 && o->y % 16) off = -off % MAXF;
    switch (o->k) {
    case READ: case PREAD: {
        memset(sbuf, 0xee, n + 16); memset(rbuf, 0xee, n + 16);
        long sr = o->k == READ ? read(sfd, sbuf, n) : pread(sfd, sbuf, n, off); int e = errno;
        any_errno = sfd < 0 ? 1 : n == 0 && e == EBADF ? 2 : o->k == PREAD && off < 0;
        if (!expect(v, sr, e, 0)) return;
        T("%s(%d,%u%s%.0ld) ", o->k == READ ? "read" : "pread", fd, n, o->k == READ ? "" : "@", o->k == READ ? 0 : (long)off);
        long r = o->k == READ ? read_tx(fd, rbuf, n) : pread_tx(fd, rbuf, n, off);
        if (sr < 0 && n == 0 && r == 0) { ref(v); break; }
        same(o->k == READ ? "read" : "pread", r, sr);
        if (memcmp(rbuf, sbuf, n + 16)) for (unsigned i = 0; i < n + 16; ++i) if (rbuf[i] != sbuf[i])
            pbt_fail(P, "data", "attempt %d: byte %u of the buffer of %s(%d,%u) at %ld = %ld is %d, immediate execution gives %d",
                     att_cur, i, o->k == READ ? "read" : "pread", fd, n, (long)(o->k == READ ? cur : off), sr, rbuf[i], sbuf[i]);
        if (r > 0) did_r = 1;
        ref(v);
        break;
    }
    case WRITE: case PWRITE: {
        off_t at = o->k == WRITE ? cur : off;
        if (sfd >= 0 && fcntl(sfd, F_GETFL) & O_APPEND) at = size;
        if (at + n > MAXF) return;
        data(wbuf, n, o->x);
        long sr = o->k == WRITE ? write(sfd, wbuf, n) : pwrite(sfd, wbuf, n, off); int e = errno;
        any_errno = sfd < 0 || off < 0 ? 1 : 0;
        if (!expect(v, sr, e, 0)) return;
        T("%s(%d,%u%s%.0ld) ", o->k == WRITE ? "write" : "pwrite", fd, n, o->k == WRITE ? "" : "@", o->k == WRITE ? 0 : (long)off);
        long r = o->k == WRITE ? write_tx(fd, wbuf, n) : pwrite_tx(fd, wbuf, n, off);
        same(o->k == WRITE ? "write" : "pwrite", r, sr);
        if (r > 0) did_w = 1, did_eff |= 1;
        ref(v);
        break;
    }
    case LSEEK: {
        static const int wh[] = { SEEK_SET, SEEK_CUR, SEEK_END, SEEK_CUR, SEEK_SET, SEEK_END, 77 };
        int w = wh[o->x % 40 ? o->x % 6 : 6];
        off = o->off;
        if (o->y % 8 == 1) off = 0;
        if (w == SEEK_SET && o->y % 8) off = labs(off);
        if (cur > MAXF && off > 0) off = -off;
        if ((w == SEEK_CUR ? cur : w == SEEK_END ? size : 0) + off < 0 && o->y % 8) off = -off;
        long sr = lseek(sfd, off, w); int e = errno;
        if (!expect(v, sr, e, 0)) return;
        T("lseek(%d,%ld,%d) ", fd, (long)off, w);
        same("lseek", lseek_tx(fd, off, w), sr);
        if (sr != cur) did_eff |= 2;
        ref(v);
        break;
    }
    case FSTAT: {
        static struct stat rs;
        long sr = fstat(sfd, &st); int e = errno;
        if (!expect(v, sr, e, 0)) return;
        T("fstat(%d) ", fd);
        same("fstat", fstat_tx(fd, &rs), sr);
        same("fstat size", rs.st_size, st.st_size);
        same("fstat mode", rs.st_mode, st.st_mode);
        same("fstat nlink", rs.st_nlink, st.st_nlink);
        ref(v);
        break;
    }
    case FSYNC: {
        long sr = sfd < 0 ? (errno = EBADF, -1) : 0; int e = errno;
        if (!expect(v, sr, e, 0)) return;
        T("fsync(%d) ", fd);
        same("fsync", fsync_tx(fd), sr);
        ref(v);
        break;
    }
    case FCHMOD: {
        mode_t m = 0400 | o->x % 0400 | (o->x / 4096 % 8 == 0 ? S_ISVTX : 0);
        long sr = fchmod(sfd, m); int e = errno;
        if (!expect(v, sr, e, 0)) return;
        T("fchmod(%d,%o) ", fd, m);
        same("fchmod", fchmod_tx(fd, m), sr);
        did_eff |= 4;
        ref(v);
        break;
    }
    case OPENTRUNC:
    case OPEN: {
        int i = free_slot(), f = o->f % NF;
        if (i < 0) return;
        static const int acc[] = { O_RDWR, O_RDONLY, O_WRONLY, O_RDWR };
        int fl = acc[o->x % 4] | (o->x / 4 % 4 == 0 ? O_APPEND : 0) | (o->x / 16 % 4 == 0 ? O_CLOEXEC : 0);
        if (!VF[f].exists ? o->x / 64 % 8 : o->x / 64 % 16 == 0) fl |= O_CREAT | O_EXCL;
        else if (VF[f].exists && o->x / 512 % 2) fl |= O_CREAT;
        if (o->k == OPENTRUNC) {
            if (!VF[f].exists || fl & O_EXCL || entries_of(f)) return;
            fl |= O_TRUNC;
        }
        mode_t m = o->x / 1024 % 2 ? 0640 : o->x / 2048 % 2 ? 0666 : 0200 | O_CREAT /* 0100 */;
        char rp[160];
        if (VF[f].exists) memcpy(rp, VF[f].rpath, sizeof rp); else snprintf(rp, sizeof rp, "%s/f%d", Rd, f);
        long sr = open(spath(f), fl, m); int e = errno;
        int sh = sr >= 0 ? hi(sr, !!(fl & O_CLOEXEC)) : -1;
        if (!expect(NULL, sr, e, o->k == OPENTRUNC)) return;
        T("open(f%d,%#x,%o)", f, fl, m);
        V[i].sfd = sh;      /* dropped at the end of the attempt */
        int r = open_tx(rp, fl, m);
        T("=%d ", r);
        chk_rfd(r, "open");
        did_eff |= 8; did_fd |= 1;
        if (o->k == OPENTRUNC) irrev_done("open(O_TRUNC)");
        if (!VF[f].exists) { VF[f].exists = 1; memcpy(VF[f].rpath, rp, sizeof rp); }
        V[i] = (struct vslot){ .used = 1, .rfd = r, .sfd = sh, .f = f, .entry = r, .refd = 1, .g = newg++ };
        add_ent(f, r);
        break;
    }
    case CLOSE: {
        int sr = close(sfd), e = errno;
        if (v->used) v->sfd = -1;
        if (!expect(v, sr, e, 0)) return;
        T("close(%d) ", fd);
        same("close", close_tx(fd), sr);
        did_eff |= 16; did_fd |= 2;
        ref(v);
        v->closed = 1;
        break;
    }
    case DUP: case DUPFD: {
        int i = free_slot();
        if (i < 0) return;
        int min = o->k == DUPFD ? (o->y / 32 % 4 == 0 ? 40 + o->x % 20 : o->x % 5) : 0;
        bool ce = o->k == DUPFD && o->x / 32 % 2;
        if (o->k == DUPFD && o->x / 64 % 16 == 0) min = -1;
        long sr = o->k == DUP || sfd < 0 || min < 0 ? (o->k == DUP ? dup(sfd) : fcntl(sfd, F_DUPFD, min)) : fcntl(sfd, ce ? F_DUPFD_CLOEXEC : F_DUPFD, 300); int e = errno;
        if (sr >= 0 && sr < 300) sr = hi(sr, 0);
        if (!expect(v, sr, e, 0)) return;
        V[i].sfd = sr;
        T("%s(%d,%d)", o->k == DUP ? "dup" : ce ? "dupfd_cloexec" : "dupfd", fd, min);
        int r = o->k == DUP ? dup_tx(fd) : fcntl_tx(fd, ce ? F_DUPFD_CLOEXEC : F_DUPFD, min);
        T("=%d ", r);
        chk_rfd(r, "dup");
        did_eff |= 32; did_fd |= 4;
        if (r < min) pbt_fail(P, "dupfd", "attempt %d: fcntl(%d, F_DUPFD, %d) returned %d", att_cur, fd, min, r);
        ref(v);
        V[i] = (struct vslot){ .used = 1, .rfd = r, .sfd = sr, .f = v->f, .entry = v->entry, .refd = 1, .g = v->g };
        break;
    }
    case DUP2: {
        struct vslot* t = &V[o->f / 4 % NS];
        int i = -1, num = o->x % 8 ? -1 : bad[o->y / 32 % 8];
        if (num < 0 && t->used && !t->closed && !DUP2_SKIP(t)) { i = (int)(t - V); num = t->rfd; }
        else if (num < 0 && (i = free_slot()) >= 0) {      /* a number nobody uses */
            num = 100 + o->x % 50;
            for (int j = 0; j < NS; ++j) if (V[j].used && V[j].rfd == num) return;
        }
        if (v->used && v->closed && pbt_known("dup2-over-used-descriptor")) return;
        long sr = sfd < 0 ? (errno = EBADF, -1) : num < 0 || num >= 1 << 20 ? dup2(sfd, num) : 0; int e = errno;
        if (sr == 0 && (i < 0 || num >= 300)) return;
        if (!expect(NULL, sr, e, 1)) return;
        T("dup2(%d,%d) ", fd, num);
        same("dup2", dup2_tx(fd, num), num);
        irrev_done("dup2");
        did_fd |= 16; did_eff |= 64;
        if (i < 0) pbt_fail(P, "dup2", "dup2(%d,%d) succeeded", fd, num);
        if (v == &V[i]) break;
        if (V[i].sfd > 0) close(V[i].sfd);
        V[i] = (struct vslot){ .used = 1, .rfd = num, .sfd = SYS(fcntl(sfd, F_DUPFD, 300)), .f = v->f, .g = v->g };
        break;
    }
    case GETFL: case GETFD: {
        int c = o->k == GETFL ? F_GETFL : F_GETFD;
        long sr = fcntl(sfd, c); int e = errno;
        if (!expect(v, sr, e, 0)) return;
        T("%s(%d) ", c == F_GETFL ? "getfl" : "getfd", fd);
        same(c == F_GETFL ? "F_GETFL" : "F_GETFD", fcntl_tx(fd, c), sr);
        ref(v);
        break;
    }
    case SETFL: case SETFD: {
        int c = o->k == SETFL ? F_SETFL : F_SETFD, a = o->k == SETFL ? (o->x & 1 ? O_APPEND : 0) : o->x & 1 ? FD_CLOEXEC : 0;
        if (refused(v)) return;
        if (o->k == SETFL) for (int i = 0; i < NS; ++i) if (&V[i] != v && V[i].used && V[i].refd && V[i].f == v->f) return;
        long sr = fcntl(sfd, c, a); int e = errno;
        if (!expect(v, sr, e, sr >= 0)) return;
        T("%s(%d,%#x) ", c == F_SETFL ? "setfl" : "setfd", fd, a);
        same("fcntl", fcntl_tx(fd, c, a), sr);
        irrev_done("fcntl");
        ref(v);
        break;
    }
    case MKSTEMP: {
        int i = free_slot(), f = -1;
        for (int j = 0; j < NF; ++j) if (!VF[(o->f + j) % NF].exists) f = (o->f + j) % NF;
        if (i < 0 || f < 0) return;
        int sh = hi(SYS(open(spath(f), O_CREAT | O_EXCL | O_RDWR, 0600)), 0);
        V[i].sfd = sh;
        if (memcmp(tmpl + strlen(tmpl) - 6, "XXXXXX", 6)) {
            /* an earlier call in this or a committed transaction has used the template */
            if (att_cur > 0 && !strncmp(tmpl, Rd, strlen(Rd))) {}
        }
        T("mkstemp(f%d)", f);
        char w[7] = "XXXXXX";
        store_tx(tmpl + strlen(tmpl) - 6, w, 6);
        int r = mkstemp_tx(tmpl);
        T("=%d ", r);
        chk_rfd(r, "mkstemp");
        did_eff |= 64; did_fd |= 8;
        load_tx(tmpl, VF[f].rpath, sizeof(tmpl));
        struct stat a, b;
        if (stat(VF[f].rpath, &a) || fstat(r, &b) || a.st_ino != b.st_ino) pbt_fail(P, "mkstemp", "attempt %d: mkstemp returned descriptor %d, but the name %s refers to something else", att_cur, r, VF[f].rpath);
        VF[f].exists = 1;
        V[i] = (struct vslot){ .used = 1, .rfd = r, .sfd = sh, .f = f, .g = newg++ };
        break;
    }
    }
}

/* compare the real world with the committed state */
static void compare(const char* when)
{
    int seen[NF] = { 0 };
    DIR* d = opendir(Rd);
    for (struct dirent* e; (e = readdir(d));) {
        if (e->d_name[0] == '.') continue;
        char b[400]; int f;
        snprintf(b, sizeof b, "%s/%s", Rd, e->d_name);
        for (f = 0; f < NF; ++f) if (F[f].exists && !strcmp(b, F[f].rpath)) break;
        if (f == NF) pbt_fail(P, "existence", "attempt %d: %s: file %s exists", att_cur, when, e->d_name);
        seen[f] = 1;
    }
    closedir(d);
    for (int f = 0; f < NF; ++f) {
        if (!F[f].exists) continue;
        if (!seen[f]) pbt_fail(P, "existence", "attempt %d: %s: file %d does not exist", att_cur, when, f);
        int fd = SYS(open(F[f].rpath, O_RDONLY | O_CLOEXEC));
        struct stat st;
        SYS(fstat(fd, &st));
        if ((st.st_mode & 07777) != F[f].mode) pbt_fail(P, "mode", "attempt %d: %s: mode of file %d is %o, expected %o", att_cur, when, f, st.st_mode & 07777, F[f].mode);
        long n = SYS(pread(fd, tmpb, 2 * MAXF, 0));
        close(fd);
        if ((size_t)n != F[f].len) pbt_fail(P, "size", "attempt %d: %s: file %d has %ld bytes, expected %zu", att_cur, when, f, n, F[f].len);
        if (memcmp(tmpb, F[f].data, n)) for (long i = 0; i < n; ++i) if (tmpb[i] != F[f].data[i])
            pbt_fail(P, "contents", "attempt %d: %s: byte %ld of file %d (%ld bytes) is %d, expected %d", att_cur, when, i, f, n, tmpb[i], F[f].data[i]);
    }
    for (int i = 0; i < NS; ++i) {
        if (!S[i].used) continue;
        int fl = fcntl(S[i].rfd, F_GETFL);
        if (fl < 0) pbt_fail(P, "closed", "attempt %d: %s: descriptor %d is closed", att_cur, when, S[i].rfd);
        if ((fl & (O_ACCMODE | O_APPEND)) != O[S[i].o].flags) pbt_fail(P, "flags", "attempt %d: %s: descriptor %d has flags %#x, expected %#x", att_cur, when, S[i].rfd, fl, O[S[i].o].flags);
        if (fcntl(S[i].rfd, F_GETFD) != S[i].cloexec) pbt_fail(P, "cloexec", "attempt %d: %s: descriptor %d has F_GETFD %d, expected %d", att_cur, when, S[i].rfd, fcntl(S[i].rfd, F_GETFD), S[i].cloexec);
        off_t o = lseek(S[i].rfd, 0, SEEK_CUR);
        if (o != O[S[i].o].off) pbt_fail(P, "offset", "attempt %d: %s: descriptor %d is at offset %ld, expected %ld", att_cur, when, S[i].rfd, (long)o, (long)O[S[i].o].off);
    }
    for (int fd = 3; fd < 290; ++fd) {      /* no other descriptors on the files */
        struct stat st; char l[40], t[200]; ssize_t n;
        if (fstat(fd, &st) || !S_ISREG(st.st_mode)) continue;
        int i; for (i = 0; i < NS; ++i) if (S[i].used && S[i].rfd == fd) break;
        snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
        if (i == NS && (n = readlink(l, t, sizeof t - 1)) > 0 && !strncmp(t, Rd, strlen(Rd)))
            pbt_fail(P, "descriptor", "attempt %d: %s: descriptor %d is open (%.*s)", att_cur, when, fd, (int)n, t);
    }
}

static void att_committed(void)
{
    /* the committed state is now the shadow's */
    for (int f = 0; f < NF; ++f) {
        F[f].exists = VF[f].exists;
        memcpy(F[f].rpath, VF[f].rpath, sizeof(VF[f].rpath));
        if (!F[f].exists) continue;
        int fd = SYS(open(spath(f), O_RDONLY));
        struct stat st;
        SYS(fstat(fd, &st));
        F[f].mode = st.st_mode & 07777;
        F[f].len = SYS(pread(fd, F[f].data, 2 * MAXF, 0));
        close(fd);
    }
    struct ofd o2[NS]; struct slot s2[NS];
    memset(o2, 0, sizeof o2); memset(s2, 0, sizeof s2);
    for (int i = 0; i < NS; ++i) {
        if (!V[i].used || V[i].closed) continue;
        int g = i;
        for (int j = 0; j < i; ++j) if (s2[j].used && V[j].g == V[i].g) { g = s2[j].o; break; }
        s2[i] = (struct slot){ 1, g, V[i].rfd, fcntl(V[i].sfd, F_GETFD) };
        o2[g] = (struct ofd){ 1, V[i].f, fcntl(V[i].sfd, F_GETFL) & (O_ACCMODE | O_APPEND), lseek(V[i].sfd, 0, SEEK_CUR) };
    }
    for (int i = 0; i < NS; ++i) if (V[i].used && V[i].closed) {
        struct stat st;
        int alive = 0;
        for (int j = 0; j < NS; ++j) if (s2[j].used && s2[j].rfd == V[i].rfd) alive = 1;
        if (!alive && !fstat(V[i].rfd, &st)) pbt_fail(P, "not-closed", "attempt %d: after commit: descriptor %d is still open", att_cur, V[i].rfd);
    }
    memcpy(S, s2, sizeof S); memcpy(O, o2, sizeof O);
    if (did_w && did_r) ok_commit = 1;
    if (did_fd & (did_fd - 1)) ok_cfd = 1;
    compare("after commit");
}
static void att_rolledback(void)
{
    if (did_eff & (did_eff - 1)) ok_roll = 1;
    compare("after roll-back");
}

static int nslots, focus;       /* slots in use at the beginning, and the one that most operations use */
static void gen(struct pbt* p, struct aop* o)
{
    if (!strcmp(pbt_mode, "data")) o->k = PBT_W(p, 7, 7, 7, 7, 5, 3, 1, 1, 2, 1, 1, 1, 1, 0, 0, 0, 0, 1, 0);
    else if (!strcmp(pbt_mode, "undo")) o->k = PBT_W(p, 3, 4, 2, 4, 3, 1, 1, 4, 5, 3, 2, 1, 1, 1, 1, 1, 3, 1, 1);
    else o->k = PBT_W(p, 2, 2, 1, 1, 1, 2, 1, 1, 6, 6, 4, 2, 1, 2, 1, 3, 2, 1, 3);
    o->s = pbt_chance(p, 1, 2) ? focus : pbt_chance(p, 3, 4) ? pbt_draw(p, nslots) : pbt_draw(p, NS);
    o->f = pbt_draw(p, NF);
    switch (PBT_W(p, 6, 2, 1, 1, 1)) {
    case 0: o->n = pbt_draw(p, 24); break;
    case 1: o->n = pbt_draw(p, 200); break;
    case 2: o->n = 0; break;
    case 3: o->n = 1020 + pbt_draw(p, 10); break;
    case 4: o->n = pbt_draw(p, pbt_chance(p, 1, 12) ? MAXIO : 2600); break;   /* the tm module needs quadratic time */
    }
    o->off = pbt_range(p, -30, 60);
    if (pbt_chance(p, 1, 6)) o->off = pbt_draw(p, 1 << 16);
    o->x = pbt_draw(p, 1 << 16);
    o->y = pbt_draw(p, 1 << 16);
}

static void setup(struct pbt* p)
{
    umask(022);
    snprintf(Rd, sizeof Rd, "%s/r", pbt_scratch());
    snprintf(Sd, sizeof Sd, "%s/s", pbt_scratch());
    mkdir(Rd, 0700); mkdir(Sd, 0700);
    DIR* d = opendir(Rd);
    for (struct dirent* e; (e = readdir(d));) if (e->d_name[0] != '.') { char b[400]; snprintf(b, sizeof b, "%s/%s", Rd, e->d_name); unlink(b); }
    closedir(d);
    snprintf(tmpl, sizeof tmpl, "%s/tXXXXXX", Rd);
    if (!tmpb) tmpb = malloc(2 * MAXF);
    memset(S, 0, sizeof S); memset(O, 0, sizeof O); memset(V, 0, sizeof V);
    for (int f = 0; f < NF; ++f) {
        if (!F[f].data) F[f].data = malloc(2 * MAXF);
        snprintf(F[f].rpath, sizeof F[f].rpath, "%s/f%d", Rd, f);
        F[f].exists = f == 0 || pbt_chance(p, 2, 3);
        F[f].mode = 0644;
        F[f].len = pbt_chance(p, 1, 24) ? pbt_draw(p, MAXF) : pbt_draw(p, 80);
        if (!F[f].exists) continue;
        data(F[f].data, F[f].len, f + 1);
        int fd = SYS(open(F[f].rpath, O_CREAT | O_EXCL | O_WRONLY, 0644));
        SYS(write(fd, F[f].data, F[f].len));
        close(fd);
    }
    int n = nslots = 1 + pbt_draw(p, 7);
    for (int i = 0; i < n; ++i) {
        int f = pbt_draw(p, NF), k = PBT_W(p, 6, 1);
        for (int j = 0; j < i && pbt_chance(p, 3, 4); ++j) if (O[j].used && O[j].f == f) { f = pbt_draw(p, NF); j = -1; }
        if (!F[f].exists) f = 0;
        if (k == 1 && i > 0) {      /* duplicate */
            int j = pbt_draw(p, i);
            S[i] = (struct slot){ 1, S[j].o, SYS(dup(S[j].rfd)), 0 };
            continue;
        }
        static const int acc[] = { O_RDWR, O_RDWR, O_RDWR, O_RDONLY, O_WRONLY };
        int fl = acc[pbt_draw(p, 5)] | (pbt_chance(p, 1, 4) ? O_APPEND : 0);
        int fd = SYS(open(F[f].rpath, fl));
        off_t at = pbt_chance(p, 1, 2) ? 0 : pbt_draw(p, 100);
        lseek(fd, at, SEEK_SET);
        O[i] = (struct ofd){ 1, f, fl, at };
        S[i] = (struct slot){ 1, i, fd, 0 };
        T("fd %d: f%d (%zu bytes) flags %#x at %ld\n", fd, f, F[f].len, fl, (long)at);
    }
}

void prop_case(struct pbt* p)
{
    P = p;
    ok_commit = ok_roll = 0;
    setup(p);
    int ntx = 1 + pbt_draw(p, 5);
    for (int t = 0; t < ntx; ++t) { focus = pbt_draw(p, nslots); static const unsigned dw[] = { 16, 1, 1, 2, 1, 1 }; att_gen(p, gen, !strcmp(pbt_mode, "data") ? dw : NULL); T("tx %d\n", t); att_run(); }
    shadow_drop();
    for (int i = 0; i < NS; ++i) if (S[i].used) close(S[i].rfd);
    if (!strcmp(pbt_mode, "data") ? ok_commit : !strcmp(pbt_mode, "undo") ? ok_roll : ok_cfd) pbt_nontrivial(p);
}
