/* D01, F06: working directory and file names. Every operation is executed immediately on a shadow of
 * the directory tree (relative to a directory descriptor that plays the working directory) and in the
 * transaction on the real tree. */
#define _GNU_SOURCE
#include "pbt.h"
#include <dirent.h>
#include <errno.h>
#include <sanitizer/asan_interface.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <picotm/picotm-tm.h>
#include <picotm/picotm-libc.h>
#include <picotm/fcntl.h>
#include <picotm/unistd.h>
#include <picotm/stdlib.h>
#include <picotm/sys/stat.h>

const char prop_rule[] =
    "a tree of nested directories, files, a FIFO and symbolic links (relative, chained, dangling, looping); 1-5 transactions "
    "of 1-10 operations per attempt on generated names (absolute and relative, ., .., through links, trailing and doubled "
    "slashes, missing, empty, too long): chdir, fchdir, getcwd with buffers of any size, stat, lstat, chmod, mkdir, mkfifo, "
    "mknod, link, unlink, open, creat, mkstemp, mkdtemp; commit, errors, conflicts, irrevocability, recovery+restart. Oracle: "
    "the kernel, on a shadow tree: same results, errors and trees; the working directory in, after commit and after "
    "roll-back. Non-trivial: (cwd) a roll-back and a commit after a change of directory; (names) two changes of the tree and "
    "a relative or symbolic name.";

enum { ATT_MAXOPS = 10 };
struct aop { int k; unsigned x, y, n; uint8_t c[4], c2[4]; };
#include "att.h"
#define T(...) pbt_trace(P, __VA_ARGS__)
enum { CHDIR, FCHDIR, GETCWD, STAT, LSTAT, CHMOD, MKDIR, MKFIFO, MKNOD, LINK, UNLINK, OPEN, CREAT, MKSTEMP, MKDTEMP, NOPS };

static char base[2][100];       /* real, shadow */
static int cwdS, cwdS0 = -1;        /* shadow's working directory: view, committed */
static char cwdR0[4200];        /* the real one */
static int dfd[5], ddir[5];
static int used_fchdir, opened, chd, ok_c, ok_r, nmod, names;
static char tmp[8][4200]; static int ntmp;
static char gb[4300]; static size_t gmax;       /* getcwd's buffer */
static struct stat stb;
static const char* const dirs[] = { ".", "d0", "d1", "d1/d2", "d1/d2/d3" };

static void sys_fail(const char* w) { char b[200]; snprintf(b, sizeof b, "%s: %s", w, strerror(errno)); pbt_inconclusive(P, b); }
#define SYS(x) ({ long r_ = (long)(x); if (r_ < 0) sys_fail(#x); r_; })

/* removes what is in a directory of the scratch area */
static void wipe(int fd)
{
    DIR* d = fdopendir(fd);
    for (struct dirent* e; d && (e = readdir(d));) {
        if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
        if (unlinkat(dirfd(d), e->d_name, 0)) {
            int s = openat(dirfd(d), e->d_name, O_DIRECTORY | O_NOFOLLOW | O_RDONLY);
            if (s >= 0) { wipe(s); unlinkat(dirfd(d), e->d_name, AT_REMOVEDIR); }
        }
    }
    if (d) closedir(d);
}
static void mkfile(const char* r, const char* n, int size)
{
    static const char b[64] = "0123456789";
    char s[300]; snprintf(s, sizeof s, "%s/%s", r, n);
    int fd = SYS(open(s, O_CREAT | O_EXCL | O_WRONLY, 0644));
    SYS(write(fd, b, size)); close(fd);
}
static void mktree(const char* r)
{
    mkdir(r, 0700);
    wipe(SYS(open(r, O_RDONLY | O_DIRECTORY)));
    char s[300];
    for (int i = 1; i < 5; ++i) { snprintf(s, sizeof s, "%s/%s", r, dirs[i]); SYS(mkdir(s, 0700 + i)); }
    mkfile(r, "f0", 10); mkfile(r, "d0/f1", 11); mkfile(r, "d1/d2/f2", 12);
    static const char* const sl[][2] = { {"d1", "l0"}, {"../d0", "d1/l1"}, {"f0", "l2"}, {"nothing", "l3"}, {"l4", "l4"},
        {"../l2", "d0/l2"}, {"l1/f1", "d1/f0"}, {"d2/d3", "d1/d0"} };
    for (unsigned i = 0; i < sizeof sl / sizeof *sl; ++i) { snprintf(s, sizeof s, "%s/%s", r, sl[i][1]); SYS(symlink(sl[i][0], s)); }
    snprintf(s, sizeof s, "%s/p0", r); SYS(mkfifo(s, 0600));
}

/* compares two directories */
static void cmpdir(int a, int b, const char* rel, const char* when)
{
    static char names[40][300];
    char n2[40][300];
    int n = 0, m = 0;
    DIR* d = fdopendir(dup(a)); rewinddir(d);
    for (struct dirent* e; (e = readdir(d)) && n < 40;) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..") && strncmp(e->d_name, "tmp", 3)) snprintf(n2[n++], 300, "%s", e->d_name);
    closedir(d);
    d = fdopendir(dup(b)); rewinddir(d);
    for (struct dirent* e; (e = readdir(d));) m += strcmp(e->d_name, ".") && strcmp(e->d_name, "..") && strncmp(e->d_name, "tmp", 3);
    closedir(d);
    (void)names;
    if (n != m) pbt_fail(P, "tree", "attempt %d: %s: %s has %d entries, expected %d", att_cur, when, rel, n, m);
    for (int i = 0; i < n; ++i) {
        struct stat s, t;
        char l[100] = "", k[100] = "", p[700];
        snprintf(p, sizeof p, "%s/%s", rel, n2[i]);
        if (fstatat(a, n2[i], &s, AT_SYMLINK_NOFOLLOW)) sys_fail("fstatat");
        if (fstatat(b, n2[i], &t, AT_SYMLINK_NOFOLLOW)) pbt_fail(P, "tree", "attempt %d: %s: %s exists", att_cur, when, p);
        if (s.st_mode != t.st_mode || (!S_ISDIR(s.st_mode) && (s.st_nlink != t.st_nlink || s.st_size != t.st_size)))
            pbt_fail(P, "tree", "attempt %d: %s: %s has mode %o, %ld links and %ld bytes, expected mode %o, %ld links and %ld bytes", att_cur, when, p, s.st_mode, (long)s.st_nlink, (long)s.st_size, t.st_mode, (long)t.st_nlink, (long)t.st_size);
        if (S_ISLNK(s.st_mode)) {
            if (readlinkat(a, n2[i], l, 99) < 0 || readlinkat(b, n2[i], k, 99) < 0 || strcmp(l, k)) pbt_fail(P, "tree", "attempt %d: %s: link %s differs", att_cur, when, p);
        }
        if (S_ISDIR(s.st_mode)) {
            int x = SYS(openat(a, n2[i], O_RDONLY | O_DIRECTORY)), y = SYS(openat(b, n2[i], O_RDONLY | O_DIRECTORY));
            cmpdir(x, y, p, when);
            close(x); close(y);
        }
    }
}
static void cmptree(const char* when)
{
    int a = SYS(open(base[0], O_RDONLY | O_DIRECTORY)), b = SYS(open(base[1], O_RDONLY | O_DIRECTORY));
    cmpdir(a, b, "", when);
    close(a); close(b);
}
/* the path of the shadow's working directory in the real tree */
static int cwd_of(int fd, char* out)
{
    char l[60], t[4200];
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(l, t, sizeof t - 1);
    if (n < 0) sys_fail("readlink");
    t[n] = 0;
    if (strncmp(t, base[1], strlen(base[1]))) pbt_inconclusive(P, "escaped");
    snprintf(out, 4200, "%s%s", base[0], t + strlen(base[1]));
    return n;
}
static void cmpcwd(const char* when)
{
    static char b[4200];
    if (!getcwd(b, sizeof b)) pbt_fail(P, "cwd", "attempt %d: %s: no working directory: %s", att_cur, when, strerror(errno));
    if (strcmp(b, cwdR0)) pbt_fail(P, "cwd", "attempt %d: %s: the working directory is %s, expected %s", att_cur, when, b, cwdR0);
}

static struct str { char* s, *want; bool kept; } str_[16];     /* strings that getcwd() allocated */
static int nstr;
static void strings(bool commit, const char* when)
{
    for (int i = 0; i < nstr; ++i) {
        bool gone = __asan_address_is_poisoned(str_[i].s);
        if (commit && str_[i].kept) {
            if (gone || strcmp(str_[i].s, str_[i].want)) pbt_fail(P, "getcwd", "attempt %d: %s: a string that getcwd allocated is %s, expected %s", att_cur, when, gone ? "freed" : str_[i].s, str_[i].want);
            free(str_[i].s);
        } else if (!gone) pbt_fail(P, "getcwd", "attempt %d: %s: a string that getcwd allocated still exists", att_cur, when);
    }
    nstr = 0;
}
static void att_start(void)
{
    for (int i = 0; i < 16; ++i) free(str_[i].want), str_[i].want = NULL;
    nstr = 0;
    memset(gb, 0x33, sizeof gb); memset(&stb, 0x44, sizeof stb); gmax = 0;
    if (cwdS >= 0) close(cwdS);
    cwdS = SYS(dup(cwdS0));
    chd = used_fchdir = opened = 0;
    T(" attempt: ");
}
static void att_finish_body(void) { T("=> %s\n", att_noundo ? "commit" : att_endname[att[att_cur].end]); }
static void fds(const char* when)
{
    for (int fd = 3; fd < 60; ++fd) {
        struct stat st;
        if (fd == cwdS || fd == cwdS0 || fstat(fd, &st)) continue;
        int i; for (i = 0; i < 5; ++i) if (dfd[i] == fd) break;
        char l[60], t[4200];
        snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
        ssize_t n = readlink(l, t, sizeof t - 1);
        if (i == 5 && n > 0 && !strncmp(t, base[0], strlen(base[0]))) pbt_fail(P, "descriptor", "attempt %d: %s: descriptor %d is open (%.*s)", att_cur, when, fd, (int)n, t);
    }
}
static void tmps(int exist, const char* when)
{
    for (int i = 0; i < ntmp; ++i) {
        struct stat st;
        int r = lstat(tmp[i], &st);
        if (exist ? r != 0 : r == 0) pbt_fail(P, "tempfile", "attempt %d: %s: temporary file %s %s", att_cur, when, tmp[i], exist ? "does not exist" : "exists");
        if (!r) unlink(tmp[i]);
    }
    ntmp = 0;
}
static void att_committed(void)
{
    if (chd) ok_c = 1;
    close(cwdS0);
    cwdS0 = SYS(dup(cwdS));
    cwd_of(cwdS0, cwdR0);
    cmpcwd("after commit");
    strings(true, "after commit");
    tmps(1, "after commit");
    cmptree("after commit");
    fds("after commit");
}
static void att_rolledback(void)
{
    if (chd) ok_r = 1;
    for (unsigned i = 0; i < sizeof gb; ++i) if (gb[i] != 0x33) pbt_fail(P, "buffer", "attempt %d: after roll-back: byte %u of the buffer given to getcwd is %d", att_cur, i, gb[i]);
    for (unsigned i = 0; i < sizeof stb; ++i) if (((char*)&stb)[i] != 0x44) pbt_fail(P, "buffer", "attempt %d: after roll-back: byte %u of the buffer given to stat is %d", att_cur, i, ((char*)&stb)[i]);
    cmpcwd("after roll-back");
    strings(false, "after roll-back");
    tmps(0, "after roll-back");
    cmptree("after roll-back");
    fds("after roll-back");
}

static const char* const comp[] = { "d0", "d1", "d2", "d3", "f0", "f1", "f2", "l0", "l1", "l2", "l3", "l4", "p0", ".", "..", "new", "nothing", "", "LONG" };
enum { NCOMP = 19, MAXP = 6000 };
static int is_rel;
/* the name for the real (0) and the shadow (1) tree */
static void mkpath(const uint8_t* c, unsigned x, int w, char* out)
{
    int n = 1 + x % 3, o = 0;
    is_rel = x / 4 % 3 != 0;
    if (x / 32 % 64 == 0) { out[0] = 0; return; }
    if (!is_rel) o = sprintf(out, "%s/", base[w]);
    for (int i = 0; i < n; ++i) {
        const char* s = comp[c[i] % (x / 16 % 8 ? NCOMP - 4 : NCOMP)];
        if (!strcmp(s, "LONG")) { memset(out + o, 'n', 260); o += 260; out[o] = 0; }
        else o += sprintf(out + o, "%s", s);
        if (i + 1 < n || x / 128 % 16 == 0) o += sprintf(out + o, x / 2048 % 8 ? "/" : "//");
    }
    out[o] = 0;
    if (!o) strcpy(out, ".");
    else if (!is_rel || out[0] != '/') return;
    else memmove(out, out + 1, strlen(out));       /* not the root of the file system */
    if (out[0] == '/') strcpy(out, "..");
    if (!out[0]) strcpy(out, ".");
}
/* may the operation be run? only if it stays in the tree */
static int inside(const char* sp)
{
    char par[MAXP];
    strcpy(par, sp);
    int n = strlen(par);
    while (n > 1 && par[n - 1] == '/') par[--n] = 0;
    char* s = strrchr(par, '/');
    if (s && s != par) *s = 0; else strcpy(par, ".");
    for (int k = 0; k < 2; ++k) {
        int fd = openat(cwdS, k ? sp : par, O_PATH);
        if (fd < 0) continue;
        char l[60], t[4200];
        snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
        ssize_t m = readlink(l, t, sizeof t - 1);
        close(fd);
        if (m < (ssize_t)strlen(base[1]) || strncmp(t, base[1], strlen(base[1]))) return 0;
    }
    return 1;
}
/* mostly, names that exist (directories, if dir is set) */
static void better(struct aop* o, bool dir)
{
    static char sp[MAXP];
    if (o->x / 2048 % 4 == 3 && o->y % 3 == 0) return;
    for (int k = 0; k < 24; ++k) {
        mkpath(o->c, o->x, 1, sp);
        int fd = openat(cwdS, sp, O_PATH | (dir ? O_DIRECTORY : 0));
        if (fd >= 0) {
            close(fd);
            if (inside(sp)) return;
        }
        o->c[k % 3] += 1 + k * 5;
        if (k % 8 == 7) o->x = o->x / 4 * 4 + (o->x + 1) % 4;
    }
}
static void same(const char* what, const char* p, long real, long shadow)
{
    if (real != shadow) pbt_fail(P, what, "attempt %d: %s(%s) returned %ld, immediate execution returns %ld", att_cur, what, p, real, shadow);
}
static void same_stat(const char* what, const char* p, struct stat* a, struct stat* b)
{
    if (a->st_mode != b->st_mode || (!S_ISDIR(a->st_mode) && (a->st_nlink != b->st_nlink || a->st_size != b->st_size)))
        pbt_fail(P, what, "attempt %d: %s(%s) reports mode %o, %ld links, %ld bytes; expected mode %o, %ld links, %ld bytes", att_cur, what, p,
                 a->st_mode, (long)a->st_nlink, (long)a->st_size, b->st_mode, (long)b->st_nlink, (long)b->st_size);
}
static bool expect(long sr, int e)
{
    if (sr < 0) { if (att_noundo) return false; att_expect(PICOTM_ERRNO, e); }
    return true;
}

static void att_op(struct aop* o)
{
    static char rp[MAXP], sp[MAXP], rp2[MAXP], sp2[MAXP];
    static struct stat st, ss;
    static int sr, r;
    if (o->k == CHDIR) better(o, true);
    else if (o->k == STAT || o->k == LSTAT || o->k == CHMOD || o->k == LINK || o->k == UNLINK || o->k == OPEN) better(o, false);
    mkpath(o->c, o->x, 0, rp); mkpath(o->c, o->x, 1, sp);
    int rel = is_rel;
    mode_t m = 0600 | o->y % 0200;
    errno = 0;
    if (o->k != FCHDIR && o->k != GETCWD && !inside(sp)) return;
    switch (o->k) {
    case CHDIR: {
        int fd = openat(cwdS, sp, O_PATH | O_DIRECTORY), e = errno;
        if (!expect(fd, e)) return;
        T("chdir(%.60s) ", rp);
        if (fd >= 0) { close(cwdS); cwdS = fd; }
        same("chdir", rp, chdir_tx(rp), 0);
        chd = 1;
        break;
    }
    case FCHDIR: {
        static const int bad[] = { -1, 900, 1024, 70000 };
        int i = o->x % 6, fd = i < 5 ? dfd[i] : bad[o->y % 4];
        if (opened || (used_fchdir && used_fchdir != i + 1)) return;
        if (i < 5 && ddir[i] < 0 && o->y % 8) return;
        int e = i == 5 ? EBADF : ddir[i] < 0 ? ENOTDIR : 0;
        if (!expect(e ? -1 : 0, e)) return;
        T("fchdir(%d) ", fd);
        used_fchdir = i + 1;
        if (!e) { char b[300]; snprintf(b, sizeof b, "%s/%s", base[1], dirs[ddir[i]]); close(cwdS); cwdS = SYS(open(b, O_PATH | O_DIRECTORY)); }
        same("fchdir", "", fchdir_tx(fd), 0);
        chd = 1;
        break;
    }
    case GETCWD: {
        static char want[4200];
        cwd_of(cwdS, want);
        size_t len = strlen(want), n = o->x % 4 == 0 ? sizeof gb : o->x % 4 == 1 ? len + (o->y % 9 != 0) : o->x % 16 == 2 ? o->y % 8 : len + 1 + o->y % 40;
        bool alloc = o->y / 64 % 4 == 0;
        if (alloc && o->y / 256 % 2) n = 0;
        if (!(alloc && n == 0) && n < len + 1 && !expect(-1, n ? ERANGE : EINVAL)) return;
        T("getcwd(%s,%zu) ", alloc ? "NULL" : "buf", n);
        char* g = getcwd_tx(alloc ? NULL : gb, n);
        if (!(alloc && n == 0) && n < len + 1) return;
        if (!g || strcmp(g, want)) pbt_fail(P, "getcwd", "attempt %d: getcwd returned %s, expected %s", att_cur, g ? g : "NULL", want);
        if (!alloc) {
            if (g != gb) pbt_fail(P, "getcwd", "attempt %d: getcwd returned another buffer", att_cur);
            if (n > gmax) gmax = n;
            for (unsigned i = n; i < sizeof gb; ++i) if (i >= gmax && gb[i] != 0x33) pbt_fail(P, "getcwd", "attempt %d: getcwd wrote beyond its buffer of %zu bytes", att_cur, n);
        } else {
            bool keep = o->y / 512 % 2;
            if (nstr < 16) str_[nstr++] = (struct str){ g, strdup(want), keep };
            if (!keep || nstr == 16) free_tx(g), str_[nstr - 1].kept = false;
        }
        break;
    }
    case STAT: case LSTAT:
        sr = fstatat(cwdS, sp, &ss, o->k == LSTAT ? AT_SYMLINK_NOFOLLOW : 0);
        if (!expect(sr, errno)) return;
        T("%s(%.60s) ", o->k == STAT ? "stat" : "lstat", rp);
        r = o->k == STAT ? stat_tx(rp, &stb) : lstat_tx(rp, &stb);
        same(o->k == STAT ? "stat" : "lstat", rp, r, sr);
        if (sr == 0) same_stat(o->k == STAT ? "stat" : "lstat", rp, &stb, &ss);
        break;
    case CHMOD:
        sr = fchmodat(cwdS, sp, m | 0600, 0);
        if (!expect(sr, errno)) return;
        T("chmod(%.60s,%o) ", rp, m | 0600);
        same("chmod", rp, chmod_tx(rp, m | 0600), sr);
        ++nmod;
        break;
    case MKDIR:
        sr = mkdirat(cwdS, sp, m | 0700);
        if (!expect(sr, errno)) return;
        T("mkdir(%.60s) ", rp);
        same("mkdir", rp, mkdir_tx(rp, m | 0700), sr);
        ++nmod;
        break;
    case MKFIFO:
        sr = mkfifoat(cwdS, sp, m);
        if (!expect(sr, errno)) return;
        T("mkfifo(%.60s) ", rp);
        same("mkfifo", rp, mkfifo_tx(rp, m), sr);
        ++nmod;
        break;
    case MKNOD: {
        mode_t t = o->y & 1 ? S_IFREG : S_IFIFO;
        sr = mknodat(cwdS, sp, t | m, 0);
        if (!expect(sr, errno)) return;
        T("mknod(%.60s) ", rp);
        same("mknod", rp, mknod_tx(rp, t | m, 0), sr);
        ++nmod;
        break;
    }
    case LINK: {
        mkpath(o->c2, o->y, 0, rp2); mkpath(o->c2, o->y, 1, sp2);
        if (!inside(sp2)) return;
        if (!fstatat(cwdS, sp, &ss, AT_SYMLINK_NOFOLLOW) && S_ISLNK(ss.st_mode)) return;     /* implementation-defined */
        int two = fstatat(cwdS, sp, &ss, 0) && !fstatat(cwdS, sp2, &st, AT_SYMLINK_NOFOLLOW);  /* two errors at once */
        sr = linkat(cwdS, sp, cwdS, sp2, 0);
        if (!expect(sr, errno)) return;
        if (two || (sr < 0 && errno != EEXIST && errno != ENOENT)) att_exp_val = -1;
        T("link(%.60s,%.60s) ", rp, rp2);
        same("link", rp, link_tx(rp, rp2), sr);
        ++nmod;
        break;
    }
    case UNLINK:
        sr = unlinkat(cwdS, sp, 0);
        if (!expect(sr, errno)) return;
        T("unlink(%.60s) ", rp);
        same("unlink", rp, unlink_tx(rp), sr);
        ++nmod;
        break;
    case OPEN: case CREAT: {
        static const int fl[] = { O_RDONLY, O_RDWR, O_RDONLY | O_CREAT, O_RDONLY | O_NOFOLLOW, O_RDONLY | O_DIRECTORY, O_WRONLY | O_CREAT, O_RDONLY };
        int f = o->k == CREAT ? O_WRONLY | O_CREAT | O_TRUNC : fl[o->y % 7];
        if (used_fchdir) return;
        if (!fstatat(cwdS, sp, &ss, 0)) {
            if (S_ISFIFO(ss.st_mode)) f |= O_NONBLOCK;
            if (S_ISFIFO(ss.st_mode) && (o->k == CREAT || (f & O_ACCMODE) != O_RDONLY)) return;
            if (o->k == CREAT && (opened || att_cur)) return;
        }
        if (o->k == CREAT && !picotm_is_irrevocable()) {
            T("creat(%.60s) ", rp);
            att_redo = 1;
            r = creat_tx(rp, m);
            pbt_fail(P, "revocable", "attempt %d: creat() returned %d in a transaction that can be rolled back", att_cur, r);
        }
        int fd = openat(cwdS, sp, f, m), e = errno;
        if (fd >= 0) SYS(fstat(fd, &ss));
        if (fd >= 0) close(fd);
        if (!expect(fd, e)) return;
        if (o->k == CREAT && fd < 0) { att_exp_status = -1; return; }
        T("%s(%.60s,%#x) ", o->k == CREAT ? "creat" : "open", rp, f);
        r = o->k == CREAT ? creat_tx(rp, m) : open_tx(rp, f, m);
        if (fd < 0) { same("open", rp, r, -1); return; }
        if (r < 0) pbt_fail(P, "open", "attempt %d: open(%s) returned %d", att_cur, rp, r);
        opened = 1;
        if (o->k == CREAT) { att_noundo = 1; }
        SYS(fstat(r, &st));
        same_stat("open", rp, &st, &ss);
        if (S_ISLNK(st.st_mode) || (int)S_ISDIR(st.st_mode) != (int)S_ISDIR(ss.st_mode)) pbt_fail(P, "open", "attempt %d: open(%s) opened another kind of file", att_cur, rp);
        same("close", rp, close_tx(r), 0);
        if (f & O_CREAT) ++nmod;
        break;
    }
    case MKSTEMP: case MKDTEMP: {
        if (ntmp >= 8 || (o->k == MKSTEMP && used_fchdir)) return;
        char* e = sp + strlen(sp); while (e > sp && e[-1] != '/') --e; strcpy(e, "tmpXXXXXX");
        e = rp + strlen(rp); while (e > rp && e[-1] != '/') --e; strcpy(e, "tmpXXXXXX");
        int off = e - rp;
        if (!inside(sp)) return;
        char par[MAXP]; strcpy(par, sp); char* q = strrchr(par, '/'); if (q) q[1] = 0; else strcpy(par, ".");
        int pf = openat(cwdS, par, O_PATH | O_DIRECTORY), er = errno;
        if (!expect(pf, er)) return;
        T("%s(%.60s)", o->k == MKSTEMP ? "mkstemp" : "mkdtemp", rp);
        static char want[4200];
        if (pf >= 0) { cwd_of(pf, want); close(pf); }
        if (o->k == MKSTEMP) r = mkstemp_tx(rp); else r = mkdtemp_tx(rp) == rp ? 0 : -1;
        T("=%d,%s ", r, rp + off);
        if (r < 0) pbt_fail(P, "mkstemp", "attempt %d: mkstemp(%s) failed", att_cur, rp);
        strcat(want, "/"); strcat(want, rp + off);
        if (lstat(want, &st) || (o->k == MKSTEMP ? !S_ISREG(st.st_mode) || (st.st_mode & 07777) != 0600 : !S_ISDIR(st.st_mode))) pbt_fail(P, "mkstemp", "attempt %d: %s was not created", att_cur, want);
        if (o->k == MKSTEMP) { opened = 1; strcpy(tmp[ntmp++], want); close_tx(r); }
        else rmdir(want);
        break;
    }
    }
    if (rel) names = 1;
}

static void gen(struct pbt* p, struct aop* o)
{
    if (!strcmp(pbt_mode, "cwd")) o->k = PBT_W(p, 8, 3, 4, 3, 1, 1, 1, 0, 0, 0, 1, 4, 1, 2, 1);
    else o->k = PBT_W(p, 3, 1, 1, 4, 5, 3, 4, 2, 2, 5, 5, 5, 2, 2, 1);
    o->x = pbt_draw(p, 1 << 14);
    o->y = pbt_draw(p, 1 << 14);
    o->n = 0;
    for (int i = 0; i < 4; ++i) { o->c[i] = pbt_draw(p, 228); o->c2[i] = o->k == LINK ? pbt_draw(p, 228) : 0; }
}

void prop_case(struct pbt* p)
{
    P = p;
    umask(022);
    ok_c = ok_r = nmod = names = ntmp = 0;
    static char sc[100];
    if (!sc[0]) snprintf(sc, sizeof sc, "%s", pbt_scratch());
    char b[200];
    for (int w = 0; w < 2; ++w) {
        snprintf(b, sizeof b, "%s/%c", sc, "rs"[w]); mkdir(b, 0700);
        snprintf(base[w], sizeof base[w], "%s/%c/t", sc, "rs"[w]);
        mktree(base[w]);
    }
    cwdS = -1;
    if (cwdS0 >= 0) close(cwdS0);
    int i = pbt_draw(p, 5);
    snprintf(b, sizeof b, "%s/%s", base[1], dirs[i]);
    cwdS0 = SYS(open(b, O_PATH | O_DIRECTORY));
    cwd_of(cwdS0, cwdR0);
    SYS(chdir(cwdR0));
    T("in %s\n", dirs[i]);
    for (int k = 0; k < 5; ++k) {
        ddir[k] = k == 4 ? -1 : (int)pbt_draw(p, 5);
        for (int j = 0; j < k; ++j) if (ddir[j] == ddir[k]) ddir[k] = -1;
        snprintf(b, sizeof b, "%s/%s", base[0], ddir[k] < 0 ? k % 2 ? "d0/f1" : "f0" : dirs[ddir[k]]);
        dfd[k] = SYS(open(b, O_RDONLY));
    }
    int ntx = 1 + pbt_draw(p, 5);
    for (int t = 0; t < ntx; ++t) { att_gen(p, gen, NULL); T("tx %d\n", t); att_run(); }
    for (int k = 0; k < 5; ++k) close(dfd[k]);
    if (cwdS >= 0) close(cwdS);
    close(cwdS0); cwdS0 = cwdS = -1;
    SYS(chdir(sc));
    if (!strcmp(pbt_mode, "cwd") ? ok_c && ok_r : nmod > 1 && names) pbt_nontrivial(p);
}
