/* F03: threads that read and write shared regular files transactionally. Modes: sched (generated
 * operation-level schedules), race (free-running threads). Files are arrays of slots of equal bytes. */
#define _GNU_SOURCE
#include "mt.h"
#include <errno.h>
#include <sys/stat.h>
#include <picotm/picotm.h>
#include <picotm/picotm-module.h>
#include <picotm/picotm-libc.h>
#include <picotm/fcntl.h>
#include <picotm/unistd.h>
#include <picotm/sys/stat.h>

int prop_flaky_ok = 1;
int prop_batch = 50;
int prop_timeout_ms = 30000;
const char prop_rule[] =
    "2-4 threads x 1-4 transactions x 1-5 operations (pread, pwrite, read, write, lseek, fstat of 1-3 slots; fchmod, fsync, F_GETLK, also of a directory) on "
    "1-2 regular files of 0-8 slots of 8-1500 bytes (around the lock records), partly beyond the end, through shared descriptors (also "
    "O_APPEND), descriptors of each thread, or ones opened in the transaction; sched: under a generated "
    "operation-level schedule, race: free-running. Oracle: a serial order over a model of slots, sizes, modes and "
    "offsets must explain all results, and the final files; no slot may be read torn. Non-trivial: an attempt was "
    "restarted, or two threads committed writes to the same file.";

enum { NF = 2, NSLOT = 64, MAXT = 4, MAXTX = 4, MAXOP = 6, ROPS = 56, MAXREC = 60, ND = 10 };
enum { R_READ, R_WRITE, R_PREAD, R_PWRITE, R_SEEK, R_SIZE, R_MODE, R_CHMOD };
static const char* const rname[] = { "read", "write", "pread", "pwrite", "lseek", "size", "mode", "fchmod" };
struct rop { int8_t k, d, f, i, n, val; int res; uint8_t v[4]; };
struct model { int8_t n[NF]; uint8_t s[NF][NSLOT]; int8_t off[ND]; uint16_t mode[NF + 1]; };   /* the last is the directory */
static struct pbt* P;
static int nf, nd, slot;
static struct { int fd, f, append; } D[ND];
static int dirfd_;
static char path[NF][200];

static bool hist_apply(struct model* m, const struct rop* o)
{
    int f = o->f, pos = o->k == R_READ || o->k == R_WRITE ? m->off[o->d] : o->i, cnt = 0;
    switch (o->k) {
    case R_READ: case R_PREAD:
        while (cnt < o->n && pos + cnt < m->n[f]) { if (cnt >= o->res || o->v[cnt] != m->s[f][pos + cnt]) return false; ++cnt; }
        if (cnt != o->res) return false;
        if (o->k == R_READ) m->off[o->d] += cnt;
        return true;
    case R_WRITE: case R_PWRITE:
        if (D[o->d].append) pos = m->n[f];
        if (o->res != o->n || pos + o->n > NSLOT) return false;
        while (m->n[f] < pos) m->s[f][m->n[f]++] = 0;
        for (int i = 0; i < o->n; ++i) m->s[f][pos + i] = o->val;
        if (m->n[f] < pos + o->n) m->n[f] = pos + o->n;
        if (o->k == R_WRITE) m->off[o->d] = pos + o->n;
        return true;
    case R_SEEK: {
        int r = o->i + (o->n == SEEK_CUR ? m->off[o->d] : o->n == SEEK_END ? m->n[f] : 0);
        if (r != o->res) return false;
        m->off[o->d] = r;
        return true;
    }
    case R_SIZE: return o->res == m->n[f];
    case R_MODE: return o->res == m->mode[f];
    case R_CHMOD: m->mode[f] = o->res; return true;
    }
    return false;
}
static uint64_t hist_hash(uint64_t mask, const struct model* m)
{
    uint64_t h = mask * 0x9e3779b97f4a7c15ull + 77;
    for (int f = 0; f < nf; ++f) {
        h = (h ^ m->n[f]) * 0x100000001b3ull;
        for (int i = 0; i < m->n[f]; ++i) h = (h ^ (m->s[f][i] + 7)) * 0x100000001b3ull;
    }
    for (int f = 0; f <= NF; ++f) h = (h ^ m->mode[f]) * 0x100000001b3ull;
    for (int i = 0; i < nd; ++i) h = (h ^ m->off[i]) * 0x100000001b3ull ^ h >> 31;
    return h * 0xbf58476d1ce4e5b9ull | 1;
}
#include "hist.h"
static void hist_print(struct pbt* p, const struct rop* o)
{
    pbt_trace(p, " %s(d%d", rname[(int)o->k], o->d);
    if (o->k == R_SEEK) pbt_trace(p, ",%d,%s", o->i, o->n == SEEK_SET ? "SET" : o->n == SEEK_CUR ? "CUR" : "END");
    else if (o->k < R_SIZE) pbt_trace(p, ",%s%.0d%d", o->k >= R_PREAD ? "@" : "", o->k >= R_PREAD ? o->i : 0, o->n);
    if (o->k == R_WRITE || o->k == R_PWRITE) pbt_trace(p, ",%d", (uint8_t)o->val);
    pbt_trace(p, ")=%d", o->res);
    if (o->k == R_READ || o->k == R_PREAD) for (int i = 0; i < o->res; ++i) pbt_trace(p, i ? ",%d" : ":%d", o->v[i]);
}

enum { O_READ, O_WRITE, O_PREAD, O_PWRITE, O_SEEK, O_SIZE, O_OPEN, O_CHMOD, O_MODE, O_FSY };
struct op { int k; unsigned d, i, n, w; };
struct tx { int n; struct op op[MAXOP]; bool irrev, fail; };
static struct { int n; struct tx tx[MAXTX]; } prog[MAXT];
static int nthreads, own;
static volatile int aborted, uniq;
static uint8_t sched[300];
static pthread_barrier_t bar;
static bool race;
static __thread struct rec* volatile R;
static __thread volatile int may_refuse;

static struct rop* note(int k, int d)
{
    struct rop* o = &R->op[R->n];
    memset(o, 0, sizeof *o);
    o->k = k; o->d = d; o->f = D[d].f;
    return o;
}
static void done(void) { __atomic_store_n(&R->n, R->n + 1, __ATOMIC_RELEASE); }
static int slots(long r, const char* w)
{
    if (r < 0) pbt_fail(P, w, "thread %d: %s returned %ld", R->thread, w, r);
    if (r % slot) pbt_fail(P, "torn", "thread %d: %s returned %ld, which is not a multiple of %d as all sizes and offsets", R->thread, w, r, slot);
    return r / slot;
}

static void do_op(int t, struct op* o)
{
    static __thread uint8_t buf[3 * 1500];
    int d = own ? t % nthreads * nf + o->d % nf : o->d % nf;
    int fd = D[d].fd, n = 1 + o->n % 3;
    if (own && nd <= d) return;
    struct rop* r;
    switch (o->k) {
    case O_READ: case O_PREAD: {
        r = note(o->k == O_READ ? R_READ : R_PREAD, d);
        r->i = o->i % 9; r->n = n;
        memset(buf, 0xee, sizeof buf);
        long l = o->k == O_READ ? read_tx(fd, buf, n * slot) : pread_tx(fd, buf, n * slot, r->i * (off_t)slot);
        r->res = slots(l, "read");
        for (int i = 0; i < r->res; ++i) {
            r->v[i] = buf[i * slot];
            for (int j = 1; j < slot; ++j) if (buf[i * slot + j] != r->v[i])
                pbt_fail(P, "torn", "thread %d: read slot %d of file %d torn: byte 0 is %d, byte %d is %d", t, r->i + i, r->f, r->v[i], j, buf[i * slot + j]);
        }
        done();
        break;
    }
    case O_WRITE: case O_PWRITE: {
        r = note(o->k == O_WRITE ? R_WRITE : R_PWRITE, d);
        r->i = o->i % 9; r->n = n;
        uint8_t v = 1 + __atomic_fetch_add(&uniq, 1, __ATOMIC_SEQ_CST) % 200;
        memset(buf, v, n * slot);
        long l = o->k == O_WRITE ? write_tx(fd, buf, n * slot) : pwrite_tx(fd, buf, n * slot, r->i * (off_t)slot);
        r->res = slots(l, "write");
        r->val = v;
        done();
        break;
    }
    case O_SEEK: {
        static const int wh[] = { SEEK_SET, SEEK_CUR, SEEK_END };
        r = note(R_SEEK, d);
        r->n = wh[o->w % 3];
        r->i = r->n == SEEK_SET ? o->i % 8 : 0;
        r->res = slots(lseek_tx(fd, r->i * (off_t)slot, r->n), "lseek");
        done();
        break;
    }
    case O_SIZE: {
        static __thread struct stat st;
        r = note(R_SIZE, d);
        if (fstat_tx(fd, &st)) pbt_fail(P, "fstat", "fstat failed");
        r->res = slots(st.st_size, "fstat size");
        done();
        break;
    }
    case O_CHMOD: {
        static const int md[] = { 0600, 0640, 0604, 0666 };
        int dir = o->w < 2;
        r = note(R_CHMOD, d);
        r->res = md[o->i % 4];
        if (dir) { r->f = NF; r->res |= 0100; }
        if (fchmod_tx(dir ? dirfd_ : fd, r->res)) pbt_fail(P, "fchmod", "fchmod failed");
        done();
        break;
    }
    case O_MODE: {
        static __thread struct stat st;
        int dir = o->w < 2;
        r = note(R_MODE, d);
        if (dir) r->f = NF;
        if (fstat_tx(dir ? dirfd_ : fd, &st)) pbt_fail(P, "fstat", "fstat failed");
        r->res = st.st_mode & 07777;
        done();
        break;
    }
    case O_FSY: {
        static __thread struct flock fl;
        if (o->w & 1) { if (fsync_tx(o->w < 3 ? dirfd_ : fd)) pbt_fail(P, "fsync", "fsync failed"); }
        else {
            fl = (struct flock){ .l_type = F_WRLCK, .l_whence = SEEK_SET };
            if (fcntl_tx(fd, F_GETLK, &fl)) pbt_fail(P, "fcntl", "F_GETLK failed");
            if (fl.l_type != F_UNLCK) pbt_fail(P, "fcntl", "F_GETLK reports a lock");
        }
        break;
    }
    case O_OPEN: {      /* reads or writes through a new descriptor */
        int f = D[d].f;
        may_refuse = 1;
        int x = open_tx(path[f], O_RDWR);
        if (x < 0) pbt_fail(P, "open", "open returned %d", x);
        r = note(o->w & 1 ? R_PWRITE : R_PREAD, d);
        r->d = ND - 1;
        r->f = f; r->i = o->i % 9; r->n = n;
        uint8_t v = 1 + __atomic_fetch_add(&uniq, 1, __ATOMIC_SEQ_CST) % 200;
        memset(buf, o->w & 1 ? v : 0xee, sizeof buf);
        r->val = v;
        if (!race) mt_point();
        long l = o->w & 1 ? pwrite_tx(x, buf, n * slot, r->i * (off_t)slot) : pread_tx(x, buf, n * slot, r->i * (off_t)slot);
        r->res = slots(l, "access");
        if (!(o->w & 1)) for (int i = 0; i < r->res; ++i) {
            r->v[i] = buf[i * slot];
            for (int j = 1; j < slot; ++j) if (buf[i * slot + j] != r->v[i]) pbt_fail(P, "torn", "thread %d: read slot %d torn through a new descriptor", t, r->i + i);
        }
        done();
        close_tx(x);
        break;
    }
    }
}

__attribute__((noinline)) static void run_tx(int t, struct tx* x)
{
    static __thread volatile int i;
    R = NULL;
    picotm_begin
        mt_attempt(P, R != NULL, picotm_is_irrevocable());
        if (R) { R->end = mt_tick(); aborted = 1; }
        R = new_rec(t);
        may_refuse = own;
        if (x->irrev && !picotm_is_irrevocable()) picotm_irrevocable();
        for (i = 0; i < x->n; ++i) {
            if (!race) mt_point();
            do_op(t, &x->op[i]);
        }
        if (!race) mt_point();
        if (x->fail) picotm_recover_from_error_code(PICOTM_GENERAL_ERROR);
    picotm_commit
        /* the module accepts only one of several descriptors of a file at a time */
        if (may_refuse && picotm_error_status() == PICOTM_ERRNO && picotm_error_as_errno() == EBADF) { R->end = mt_tick(); aborted = 1; mt_finished(); return; }
        if (!x->fail) pbt_fail(P, "error", "unexpected recovery %d (%ld)", picotm_error_status(), picotm_error_status() == PICOTM_ERRNO ? (long)picotm_error_as_errno() : -1);
        R->end = mt_tick();
        mt_finished(); return;
    picotm_end
    mt_finished();
    R->end = mt_tick();
    R->committed = true;
}

static void body(int t)
{
    if (race) pthread_barrier_wait(&bar);
    for (int i = 0; i < prog[t].n; ++i) run_tx(t, &prog[t].tx[i]);
    picotm_release();
}

static struct model init;
static uint8_t fbuf[NSLOT * 1500];

void prop_case(struct pbt* p)
{
    static const int ss[] = { 8, 32, 40, 100, 64, 24, 256, 48, 1024, 1500, 300 };
    static const char* const oname[] = { "read", "write", "pread", "pwrite", "lseek", "fstat", "open", "fchmod", "mode", "sync" };
    P = p;
    race = !strcmp(pbt_mode, "race");
    nf = 1 + pbt_draw(p, NF);
    nthreads = 2 + pbt_draw(p, MAXT - 1);
    slot = ss[pbt_draw(p, 11)];
    own = pbt_chance(p, 1, 6);
    if (own && nthreads * nf > ND - 1) nthreads = 4;
    nd = own ? nthreads * nf : nf;
    memset(&init, 0, sizeof init);
    for (int f = 0; f < nf; ++f) {
        snprintf(path[f], sizeof path[f], "%s/f%d", pbt_scratch(), f);
        init.n[f] = pbt_draw(p, 9);
        for (int i = 0; i < init.n[f]; ++i) memset(fbuf + i * slot, init.s[f][i] = 201 + i, slot);
        int fd = open(path[f], O_CREAT | O_TRUNC | O_WRONLY, 0600);
        if (fd < 0 || write(fd, fbuf, init.n[f] * slot) != init.n[f] * slot) pbt_inconclusive(p, "scratch");
        close(fd);
        pbt_trace(p, "f%d: %d slots of %d bytes%s\n", f, init.n[f], slot, own ? ", own descriptors" : "");
    }
    {
        static char dn[200];
        snprintf(dn, sizeof dn, "%s/d", pbt_scratch());
        mkdir(dn, 0700);
        chmod(dn, init.mode[NF] = 0700);
        dirfd_ = open(dn, O_RDONLY | O_DIRECTORY);
        if (dirfd_ < 0) pbt_inconclusive(p, "scratch");
        for (int f = 0; f < nf; ++f) chmod(path[f], init.mode[f] = 0600);
    }
    for (int d = 0; d < nd; ++d) {
        D[d].f = d % nf;
        D[d].append = pbt_chance(p, 1, 6);
        D[d].fd = open(path[D[d].f], O_RDWR | (D[d].append ? O_APPEND : 0));
        init.off[d] = pbt_chance(p, 1, 2) ? 0 : pbt_draw(p, 8);
        lseek(D[d].fd, init.off[d] * slot, SEEK_SET);
        pbt_trace(p, "d%d: f%d at %d%s\n", d, D[d].f, init.off[d], D[d].append ? " append" : "");
    }
    D[ND - 1].append = 0;
    int grow = 0, hot = pbt_draw(p, 7);
    for (int t = 0; t < nthreads; ++t) {
        prog[t].n = 1 + pbt_draw(p, race ? MAXTX : 3);
        pbt_trace(p, "T%d:", t);
        for (int i = 0; i < prog[t].n; ++i) {
            struct tx* x = &prog[t].tx[i];
            x->n = 1 + pbt_draw(p, pbt_chance(p, 1, 3) ? MAXOP : 4);
            bool rmw = pbt_chance(p, 1, 8);     /* reads something several times, and writes it */
            x->irrev = pbt_chance(p, 1, 14);
            x->fail = pbt_chance(p, 1, 12);
            pbt_trace(p, " {%s%s", x->irrev ? "irrevocable " : "", x->fail ? "fails " : "");
            for (int j = 0; j < x->n; ++j) {
                struct op* o = &x->op[j];
                o->k = PBT_W(p, 3, 3, 5, 5, 2, 2, 1, 1, 1, 1);
                if (o->k == O_OPEN && pbt_chance(p, 2, 3)) o->k = O_PREAD;
                o->d = pbt_draw(p, nf); o->i = pbt_chance(p, 4, 5) ? hot + pbt_draw(p, 3) : pbt_draw(p, 9); o->n = PBT_W(p, 4, 3, 1); o->w = pbt_draw(p, 6);
                if (rmw) o->k = j < x->n - 1 || grow > 34 ? O_PREAD : O_PWRITE;
                if (j && (rmw || pbt_chance(p, 1, 5))) { o->d = x->op[j - 1].d; o->i = x->op[j - 1].i; o->n = x->op[j - 1].n; }      /* the same slots again */
                if (o->k == O_WRITE || o->k == O_PWRITE) { grow += 1 + o->n % 3; if (grow > 36) o->k -= O_WRITE - O_READ; }
                pbt_trace(p, " %s(%u@%u,%u)", oname[o->k], o->d, o->i, 1 + o->n % 3);
            }
            pbt_trace(p, "}");
        }
        pbt_trace(p, "\n");
    }
    int ns = race ? 0 : mt_gen_sched(p, sched, sizeof(sched));
    nrec = 0; aborted = 0; mt_clock = 0; uniq = 0;
    if (race) {
        pthread_barrier_init(&bar, NULL, nthreads);
        mt_stress(nthreads, body);
        pthread_barrier_destroy(&bar);
    } else mt_run(nthreads, body, sched, ns);

    /* the final state, read by the test itself */
    R = new_rec(9);
    for (int f = 0; f < nf; ++f) {
        struct stat st;
        int fd = open(path[f], O_RDONLY);
        if (fd < 0 || fstat(fd, &st)) pbt_inconclusive(p, "scratch");
        if (st.st_size % slot || st.st_size > NSLOT * slot) pbt_fail(p, "size", "file %d has %ld bytes in the end", f, (long)st.st_size);
        int n = st.st_size / slot;
        if (pread(fd, fbuf, sizeof fbuf, 0) != st.st_size) pbt_inconclusive(p, "scratch");
        for (int i = 0; i < n; ++i) {
            for (int j = 1; j < slot; ++j) if (fbuf[i * slot + j] != fbuf[i * slot])
                pbt_fail(p, "torn", "slot %d of file %d is torn in the end", i, f);
            struct rop* r = i % 3 ? &R->op[R->n - 1] : note(R_PREAD, 0);
            if (i % 3 == 0) { r->f = f; r->i = i; done(); }
            r->v[i % 3] = fbuf[i * slot];
            r->res = r->n = i % 3 + 1;
        }
        struct rop* r = note(R_SIZE, 0);
        r->f = f; r->res = n;
        done();
        r = note(R_MODE, 0);
        r->f = f; r->res = st.st_mode & 07777;
        done();
        close(fd);
    }
    {
        struct stat st;
        fstat(dirfd_, &st);
        struct rop* r = note(R_MODE, 0);
        r->f = NF; r->res = st.st_mode & 07777;
        done();
        close(dirfd_);
    }
    R->end = mt_tick(); R->committed = true;
    R = new_rec(9);
    for (int d = 0; d < nd; ++d) {
        off_t o = lseek(D[d].fd, 0, SEEK_CUR);
        struct rop* r = note(R_SEEK, d);
        r->n = SEEK_CUR; r->res = o % slot ? -2 : o / slot;
        done();
        close(D[d].fd);
    }
    R->end = mt_tick(); R->committed = true;

    int wr[NF] = { 0 };
    for (int i = 0; i < nrec; ++i) if (recs[i].committed && recs[i].thread < 8)
        for (int j = 0; j < recs[i].n; ++j) if (recs[i].op[j].k == R_WRITE || recs[i].op[j].k == R_PWRITE) wr[recs[i].op[j].f] |= 1 << recs[i].thread;
    for (int f = 0; f < nf; ++f) if (wr[f] & (wr[f] - 1)) pbt_nontrivial(p);
    if (aborted) { pbt_nontrivial(p); pbt_label(p, "conflict"); }
    if (!mt_lone()) hist_check(p, &init);
}
