/* F01: file I/O at large offsets, against a model of a sparse file. */
#include "pbt.h"
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <picotm/picotm.h>
#include <picotm/picotm-module.h>
#include <picotm/picotm-tm.h>
#include <picotm/picotm-libc.h>
#include <picotm/fcntl.h>
#include <picotm/unistd.h>
#include <picotm/sys/stat.h>

const char prop_rule[] =
    "A sparse file with data around the offsets 0, 2^31, 2^32, 3*2^32, 2^36 and 2^40, one descriptor (with or without "
    "O_APPEND); 1-4 transactions of 1-10 operations read, write, pread, pwrite, lseek, fstat there and in the holes, "
    "which commit or fail. Oracle: a model of the file. Non-trivial: data above 2^31 read and written.";

enum { NR = 6, W = 32768, MAXOPS = 10, MAXN = 300 };
enum { READ, WRITE, PREAD, PWRITE, LSEEK, FSTAT, NK };
static const char* const name[] = { "read", "write", "pread", "pwrite", "lseek", "fstat" };
static const off_t rbase[NR] = { 0, (1ll << 31) - W / 4, (1ll << 32) - W / 4, (3ll << 32) - W / 4, (1ll << 36) - W / 4, (1ll << 40) - W / 4 };
struct model { off_t size, pos; unsigned char win[NR][W]; };
static struct model C, M;
struct op { int k; off_t off; unsigned n; int whence; unsigned char fill; off_t res; unsigned char want[MAXN]; };
static struct op ops[MAXOPS];
static int nops, fd, append;
static unsigned char wb[MAXOPS][MAXN], rb[MAXOPS][MAXN];
static struct stat sb[MAXOPS];
static volatile off_t got[MAXOPS];
static volatile int done, failing;

static unsigned char* at(struct model* m, off_t o) { for (int r = 0; r < NR; ++r) if (o >= rbase[r] && o < rbase[r] + W) return &m->win[r][o - rbase[r]]; return NULL; }
static bool writable(off_t o, unsigned n) { unsigned char* a = at(&M, o), *b = at(&M, o + n); return a && b && b - a == n; }
static long mread(off_t o, unsigned char* d, unsigned n)
{
    unsigned i = 0;
    for (; i < n && o + i < M.size; ++i) { unsigned char* a = at(&M, o + i); d[i] = a ? *a : 0; }
    return i;
}
static void mwrite(off_t o, const unsigned char* s, unsigned n)
{
    for (unsigned i = 0; i < n; ++i) *at(&M, o + i) = s[i];
    if (n && o + n > M.size) M.size = o + n;
}

static __attribute__((noinline)) void run_tx(struct pbt* p)
{
    static volatile int i, recovered;
    recovered = 0; done = 0;
    picotm_begin
        for (i = 0; i < nops; ++i) {
            struct op* o = &ops[i];
            switch (o->k) {
            case READ: got[i] = read_tx(fd, rb[i], o->n); break;
            case WRITE: got[i] = write_tx(fd, wb[i], o->n); break;
            case PREAD: got[i] = pread_tx(fd, rb[i], o->n, o->off); break;
            case PWRITE: got[i] = pwrite_tx(fd, wb[i], o->n, o->off); break;
            case LSEEK: got[i] = lseek_tx(fd, o->off, o->whence); break;
            case FSTAT: got[i] = fstat_tx(fd, &sb[i]); break;
            }
            done = i + 1;
        }
        if (failing && !picotm_is_irrevocable()) picotm_recover_from_errno(4711);
    picotm_commit
        recovered = 1;
        if (!failing || picotm_error_status() != PICOTM_ERRNO || picotm_error_as_errno() != 4711)
            pbt_fail(p, "error", "after %d operations: error of status %d", done, (int)picotm_error_status());
    picotm_end
    if (failing && !recovered) failing = 0;     /* committed irrevocably */
}

void prop_case(struct pbt* p)
{
    static char path[300];
    snprintf(path, sizeof path, "%s/big", pbt_scratch());
    unlink(path);
    append = pbt_chance(p, 1, 4);
    fd = open(path, O_RDWR | O_CREAT | O_EXCL | (append ? O_APPEND : 0), 0600);
    int w = open(path, O_RDWR);
    if (fd < 0 || w < 0) abort();
    memset(&C, 0, sizeof C);
    int top = 1 + pbt_draw(p, NR);      /* regions that exist at first */
    for (int r = 0; r < top; ++r) {
        if (r + 1 < top && pbt_chance(p, 1, 3)) continue;
        unsigned n = W / 4 - 40 + pbt_draw(p, 80), lo = pbt_chance(p, 1, 2) ? 0 : n - 1 - pbt_draw(p, 100);
        for (unsigned i = lo; i < n; ++i) C.win[r][i] = 1 + (i * 7 + r * 31) % 250;
        if (pwrite(w, C.win[r] + lo, n - lo, rbase[r] + lo) != (ssize_t)(n - lo)) { if (errno == EFBIG || errno == ENOSPC) { pbt_inconclusive(p, "file system without large files"); return; } abort(); }
        C.size = rbase[r] + n;
    }
    if (pbt_chance(p, 1, 4)) { C.pos = rbase[pbt_draw(p, NR)] + W / 4 - 50 + pbt_draw(p, 100); if (lseek(fd, C.pos, SEEK_SET) != C.pos) abort(); }
    pbt_trace(p, "size %lld pos %lld%s\n", (long long)C.size, (long long)C.pos, append ? " O_APPEND" : "");
    int ntx = 1 + pbt_draw(p, 4), hr = 0, hw = 0;
    for (int t = 0; t < ntx; ++t) {
        M = C;
        nops = 1 + pbt_len(p, MAXOPS - 1);
        failing = pbt_chance(p, 1, 4);
        pbt_trace(p, "{");
        int focus = pbt_draw(p, NR);
        for (int i = 0; i < nops; ++i) {
            struct op* o = &ops[i];
            o->k = PBT_W(p, 3, 3, 4, 4, 3, 1);
            int r = pbt_chance(p, 1, 2) ? focus : pbt_draw(p, NR);
            o->off = rbase[r] + W / 4 - 60 + pbt_draw(p, 120);
            if (pbt_chance(p, 1, 10)) o->off += W + pbt_draw(p, 1u << 30);
            o->n = pbt_chance(p, 1, 8) ? pbt_draw(p, MAXN) : pbt_draw(p, 60);
            o->whence = PBT_W(p, 3, 1, 1);
            o->fill = 1 + pbt_draw(p, 255);
            if (o->k == LSEEK) {
                off_t to = o->off;
                if (o->whence == 1) o->off = (pbt_chance(p, 1, 3) ? o->off : (off_t)pbt_draw(p, 100)) - M.pos, to = M.pos + o->off;
                if (o->whence == 2) o->off = pbt_chance(p, 1, 2) ? -(off_t)pbt_draw(p, 60) : to - M.size, to = M.size + o->off;
                if (to < 0) { to = M.pos; o->off = 0; o->whence = 1; }
                M.pos = o->res = to;
            }
            off_t wo = o->k == WRITE && !append ? M.pos : append ? M.size : o->off;   /* Linux appends with pwrite, too */
            if ((o->k == WRITE || o->k == PWRITE) && !writable(wo, o->n)) o->k = FSTAT;
            memset(wb[i], 0, MAXN); memset(rb[i], 0xee, MAXN); memset(o->want, 0xee, MAXN);
            for (unsigned j = 0; j < o->n; ++j) wb[i][j] = o->fill + j;
            switch (o->k) {
            case READ: o->res = mread(M.pos, o->want, o->n); if (o->res && M.pos > 1ll << 31) hr = 1; M.pos += o->res; break;
            case PREAD: o->res = mread(o->off, o->want, o->n); if (o->res && o->off > 1ll << 31) hr = 1; break;
            case WRITE: case PWRITE:
                mwrite(wo, wb[i], o->n); o->res = o->n; if (o->n && wo > 1ll << 31) hw = 1;
                if (o->k == WRITE && (o->n || !append)) M.pos = wo + o->n;
                break;
            case FSTAT: o->res = 0; break;
            }
            if (o->k == FSTAT) pbt_trace(p, " fstat"); else pbt_trace(p, " %s(%lld,%u%s)", name[o->k], (long long)o->off, o->n, o->k == LSEEK ? (o->whence == 0 ? " SET" : o->whence == 1 ? " CUR" : " END") : "");
        }
        pbt_trace(p, " => %s }\n", failing ? "error" : "commit");
        run_tx(p);
        for (int i = 0; i < nops; ++i) if (got[i] != ops[i].res) pbt_fail(p, "result", "transaction %d: operation %d, %s, returned %lld, expected %lld", t, i, name[ops[i].k], (long long)got[i], (long long)ops[i].res);
        if (failing) M = C;
        else for (int i = 0; i < nops; ++i) if (memcmp(rb[i], ops[i].want, MAXN)) pbt_fail(p, "data", "transaction %d: operation %d, %s, read different data", t, i, name[ops[i].k]);
        C = M;
        struct stat st;
        if (fstat(w, &st) || st.st_size != C.size) pbt_fail(p, "size", "after transaction %d: file has %lld bytes, expected %lld", t, (long long)st.st_size, (long long)C.size);
        off_t pos = lseek(fd, 0, SEEK_CUR);
        if (pos != C.pos) pbt_fail(p, "offset", "after transaction %d: file offset %lld, expected %lld", t, (long long)pos, (long long)C.pos);
        static unsigned char buf[W];
        for (int r = 0; r < NR; ++r) {
            off_t n = C.size - rbase[r]; if (n < 0) n = 0; if (n > W) n = W;
            ssize_t g = pread(w, buf, W, rbase[r]);
            if (g != n) pbt_fail(p, "size", "after transaction %d: %zd bytes at %lld", t, g, (long long)rbase[r]);
            for (int i = 0; i < n; ++i) if (buf[i] != C.win[r][i]) pbt_fail(p, "content", "after transaction %d: byte %lld is %d, expected %d", t, (long long)rbase[r] + i, buf[i], C.win[r][i]);
        }
        /* nothing else was written */
        for (off_t x = 0; (x = lseek(w, x, SEEK_DATA)) >= 0;) {
            off_t e = lseek(w, x, SEEK_HOLE);
            if (e < 0) break;
            for (off_t y = x; y < e && y < C.size; y += 4096 - y % 4096) if (!at(&C, y) && !at(&C, y + 4095 - y % 4096)) {
                static unsigned char pg[4096];
                ssize_t g = pread(w, pg, 4096 - y % 4096, y);
                for (ssize_t i = 0; i < g; ++i) if (pg[i]) pbt_fail(p, "content", "after transaction %d: data at %lld", t, (long long)(y + i));
            }
            x = e;
        }
    }
    close(w); close(fd);
    if (hr && hw) pbt_nontrivial(p);
}
void prop_init(void) { }
