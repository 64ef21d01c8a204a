/* F04: streams - pipes, FIFOs, sockets, terminals. Sequential histories against a model of byte and
 * message queues; the content that arrives at the other end is compared after every commit and
 * roll-back. */
#define _GNU_SOURCE
#include "pbt.h"
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <termios.h>
#include <unistd.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <picotm/picotm-tm.h>
#include <picotm/picotm-libc.h>
#include <picotm/fcntl.h>
#include <picotm/unistd.h>
#include <picotm/sys/socket.h>
#include <picotm/sys/stat.h>

const char prop_rule[] =
    "1-5 channels: pipe, FIFO, Unix stream/datagram/seqpacket socket pair, terminal; blocking or non-blocking; "
    "1-5 transactions with 1-10 operations per attempt: write, send (with and without flags, empty messages), read, "
    "recv, MSG_PEEK, close, shutdown, fstat, F_GETFL, F_SETFL, seeking and positioned I/O (ESPIPE), wrong kinds of "
    "descriptors, pipe, socket, accept, connect, bind and listen; commit, errors, conflicts, irrevocability, "
    "recovery+restart. Oracle: byte and message queues; after each commit or roll-back all descriptors are drained and "
    "must hold exactly the committed data. Non-trivial: data written in an attempt that rolled back, and data from a "
    "committed one that arrived.";

enum { NC = 6, QMAX = 40000, MM = 64, NS = NC * 2, ATT_MAXOPS = 10 };
struct aop { int k; unsigned s, n, x, y; };
#include "att.h"
#define T(...) pbt_trace(P, __VA_ARGS__)

enum { WRITE, SEND, SENDF, READ, RECV, PEEK, FSTAT, GETFL, SETFL, POS, CLOSE, SHUT, PIPE, SOCK, ACCEPT, CONNECT, LISTEN, NOPS };
enum kind { PIPEK, FIFOK, STREAMK, DGRAMK, SEQK, PTYK, SOLO };
static const char* const kname[] = { "pipe", "fifo", "stream", "dgram", "seqpacket", "pty", "socket" };

struct queue { int len, nm; unsigned short m[MM]; unsigned char b[QMAX]; };
struct side { int fd, nb, ext, wrshut, rdshut, closed, used, fresh; };  /* ext: never used in transactions */
struct chan { int kind; struct side s[2]; struct queue q[2]; };         /* q[i]: written by side i */
static struct chan C[NC], V[NC];
static int nchan, vnchan, ok_undone, ok_arrived, wrote, Lfd, lconn;
static char Rd[100], Lpath[108];
static unsigned seq;

static void sys_fail(const char* w) { char b[200]; snprintf(b, sizeof b, "%s: %s", w, strerror(errno)); pbt_inconclusive(P, b); }
#define SYS(x) ({ long r_ = (long)(x); if (r_ < 0) sys_fail(#x); r_; })
static int msgs(int k) { return k == DGRAMK || k == SEQK; }
static int writes(struct chan* c, int s) { return c->kind > FIFOK || s == 0; }
static int reads(struct chan* c, int s) { return c->kind > FIFOK || s == 1; }

static void put(struct chan* c, int s, const unsigned char* b, int n)
{
    struct queue* q = &c->q[s];
    memcpy(q->b + q->len, b, n);
    q->len += n;
    q->m[q->nm++] = n;
}
/* takes at most n bytes or a message */
static int take(struct chan* c, int s, unsigned char* b, int n, int peek)
{
    struct queue* q = &c->q[!s];
    int m = msgs(c->kind) ? q->m[0] : q->len;
    int r = m < n ? m : n;
    memcpy(b, q->b, r);
    if (peek) return r;
    int d = msgs(c->kind) ? m : r;
    memmove(q->b, q->b + d, q->len - d);
    q->len -= d;
    if (msgs(c->kind)) memmove(q->m, q->m + 1, --q->nm * sizeof q->m[0]);
    else q->nm = 0;
    return r;
}
static int empty(struct chan* c, int s) { struct queue* q = &c->q[!s]; return msgs(c->kind) ? !q->nm : !q->len; }
static int eof(struct chan* c, int s) { return c->s[!s].fd < 0 || c->s[!s].wrshut || c->s[s].rdshut; }

static int Bfd, cB, vB, Bused;      /* a socket that isn't bound (0), bound (1), or listens (2) */
static char Bpath[108];
static void verify_bound(const char* when)
{
    struct sockaddr_un a; socklen_t al = sizeof a;
    memset(&a, 0, sizeof a);
    SYS(getsockname(Bfd, (struct sockaddr*)&a, &al));
    int b = al > sizeof(sa_family_t);
    int l = 0; socklen_t ll = sizeof l;
    SYS(getsockopt(Bfd, SOL_SOCKET, SO_ACCEPTCONN, &l, &ll));
    if (b + l != cB || (b && strcmp(a.sun_path, Bpath)))
        pbt_fail(P, "bound", "attempt %d: %s: the socket %d is%s bound%s, expected state %d", att_cur, when, Bfd, b ? "" : " not", l ? " and listens" : "", cB);
}
/* compares all that can be read from real descriptors; puts it back afterwards */
static void verify(const char* when)
{
    static unsigned char b[QMAX + 16];
    verify_bound(when);
    for (int i = 0; i < nchan; ++i) for (int s = 0; s < 2; ++s) {
        struct chan* c = &C[i];
        struct side* d = &c->s[s];
        if (d->fd < 0) continue;
        struct stat st;
        if (fstat(d->fd, &st)) pbt_fail(P, "closed", "attempt %d: %s: descriptor %d (%s %d) is not open", att_cur, when, d->fd, kname[c->kind], i);
        int fl = fcntl(d->fd, F_GETFL);
        if (!!(fl & O_NONBLOCK) != d->nb) pbt_fail(P, "flags", "attempt %d: %s: descriptor %d has status flags %#x", att_cur, when, d->fd, fl);
        if (!reads(c, s) || c->kind == SOLO) continue;
        struct queue* q = &c->q[!s];
        int got = 0, gm = 0;
        static unsigned short m[MM + 1];
        struct pollfd pf = { d->fd, POLLIN, 0 };
        while (poll(&pf, 1, 0) > 0 && pf.revents & POLLIN) {
            ssize_t r = read(d->fd, b + got, sizeof b - got);
            if (r < 0 && errno == ECONNRESET) continue;    /* the peer closed with unread data */
            if (r < 0) break;
            if (!r && (!msgs(c->kind) || (c->kind == SEQK && eof(c, s)))) break;
            if (!r && c->kind == DGRAMK && gm >= q->nm && eof(c, s)) break;
            got += r;
            if (gm > MM) break;
            m[gm++] = r;
            if (got >= (int)sizeof b) break;
        }
        if (got != q->len) pbt_fail(P, "amount", "attempt %d: %s: %d bytes arrived at descriptor %d (%s %d), expected %d", att_cur, when, got, d->fd, kname[c->kind], i, q->len);
        for (int j = 0; j < got; ++j) if (b[j] != q->b[j])
            pbt_fail(P, "content", "attempt %d: %s: byte %d of %d at descriptor %d (%s %d) is %d, expected %d", att_cur, when, j, got, d->fd, kname[c->kind], i, b[j], q->b[j]);
        if (msgs(c->kind)) {
            if (gm != q->nm) pbt_fail(P, "messages", "attempt %d: %s: %d messages arrived at descriptor %d (%s %d), expected %d", att_cur, when, gm, d->fd, kname[c->kind], i, q->nm);
            for (int j = 0; j < gm; ++j) if (m[j] != q->m[j])
                pbt_fail(P, "messages", "attempt %d: %s: message %d of %d at descriptor %d has %d bytes, expected %d", att_cur, when, j, gm, d->fd, m[j], q->m[j]);
        }
        if (got) ok_arrived = 1;
        if (eof(c, s)) { q->len = q->nm = 0; continue; }
        int w = c->s[!s].fd, o = 0;
        if (msgs(c->kind)) for (int j = 0; j < gm; ++j) { SYS(send(w, b + o, m[j], 0)); o += m[j]; }
        else if (got) { ssize_t r = SYS(write(w, b, got)); if (r != got) pbt_inconclusive(P, "refill"); }
    }
}

static void att_start(void)
{
    for (int i = 0; i < nchan; ++i) { V[i] = C[i]; for (int s = 0; s < 2; ++s) V[i].s[s].used = V[i].s[s].fresh = V[i].s[s].closed = 0; }
    vnchan = nchan;
    vB = cB; Bused = 0;
    wrote = 0;
    T(" attempt: ");
}
static void att_finish_body(void) { T("=> %s\n", att_noundo ? "commit" : att_endname[att[att_cur].end]); }
static void att_committed(void)
{
    for (int i = 0; i < vnchan; ++i) {
        for (int s = 0; s < 2; ++s) {
            struct side* d = &V[i].s[s];
            if (!d->closed) continue;
            if (fcntl(d->fd, F_GETFD) >= 0) pbt_fail(P, "not-closed", "attempt %d: descriptor %d is open after the commit of its close()", att_cur, d->fd);
            d->fd = -1; d->closed = 0;
            V[i].q[!s].len = V[i].q[!s].nm = 0;
        }
        C[i] = V[i];
    }
    nchan = vnchan;
    cB = vB;
    verify("after commit");
}
static void att_rolledback(void)
{
    if (wrote) ok_undone = 1;
    for (int i = nchan; i < vnchan; ++i) for (int s = 0; s < 2; ++s)
        if (V[i].s[s].fd >= 0 && !V[i].s[s].ext && fcntl(V[i].s[s].fd, F_GETFD) >= 0)
            pbt_fail(P, "leak", "attempt %d: descriptor %d of a %s created in a rolled-back transaction is open", att_cur, V[i].s[s].fd, kname[V[i].kind]);
    for (int i = nchan; i < vnchan; ++i) for (int s = 0; s < 2; ++s) if (V[i].s[s].ext) close(V[i].s[s].fd);
    vnchan = nchan;
    verify("after roll-back");
}

static struct side* pick(struct aop* o, struct chan** c, int* s)
{
    int n = vnchan * 2;
    for (int t = 0; t < n; ++t) {
        int j = (o->s + t) % n;
        struct side* d = &V[j / 2].s[j & 1];
        if (d->ext || d->fd < 0 || (d->closed && o->y % 4)) continue;
        if ((o->k <= SENDF && o->y / 4 % 16 && !writes(&V[j / 2], j & 1))) continue;
        if ((o->k >= READ && o->k <= PEEK && o->y / 4 % 16 && !reads(&V[j / 2], j & 1))) continue;
        if (((o->k >= SEND && o->k <= SENDF) || o->k == RECV || o->k == PEEK || o->k == SHUT) && o->y / 4 % 16 && (V[j / 2].kind < STREAMK || V[j / 2].kind == PTYK)) continue;
        *c = &V[j / 2]; *s = j & 1;
        return d;
    }
    return NULL;
}
static int issock(struct chan* c) { return (c->kind >= STREAMK && c->kind <= SEQK) || c->kind == SOLO; }
static int full;         /* operations that would block abort the transaction */
static void irrev_done(const char* what)
{
    if (!picotm_is_irrevocable()) pbt_fail(P, "revocable", "%s succeeded in a transaction that can still be rolled back", what);
    att_noundo = 1;
}
static int newchan(int kind, int a, int b, int ext)
{
    struct chan* c = &V[vnchan];
    memset(c, 0, offsetof(struct chan, q));
    c->q[0].len = c->q[0].nm = c->q[1].len = c->q[1].nm = 0;
    c->kind = kind;
    c->s[0].fd = a; c->s[1].fd = b;
    c->s[0].fresh = c->s[1].fresh = 1;
    c->s[1].ext = ext;
    return vnchan++;
}
static void chk_new(int fd, const char* w)
{
    if (fd < 0) pbt_fail(P, w, "attempt %d: %s returned %d", att_cur, w, fd);
    for (int i = 0; i < vnchan; ++i) for (int s = 0; s < 2; ++s) if (V[i].s[s].fd == fd) pbt_fail(P, w, "attempt %d: %s returned descriptor %d, which is in use", att_cur, w, fd);
}

static unsigned char wb[8192], rb[QMAX + 16], mb[QMAX + 16];

static void att_op(struct aop* o)
{
    struct chan* c; int s;
    struct side* d = NULL;
    if (o->k < PIPE) {
        d = pick(o, &c, &s);
        if (!d) return;
        /* the ends of a pipe are one file */
        bool ref = c->kind <= FIFOK && !d->fresh && c->s[!s].used && !d->used;
        if (ref) { if (att_noundo || o->y / 64 % 8) return; }
        if (d->closed) {
            if (att_noundo) return;
            att_expect(PICOTM_ERRNO, EBADF);
        } else if (ref) att_expect(PICOTM_ERRNO, -1);   /* EBADF, or the error of the operation */
        if (d->closed || ref) {
            if (o->k != FSTAT && o->k != WRITE && o->k != GETFL) { att_exp_status = -1; return; }
            T("%s(%d) [%s] ", o->k == FSTAT ? "fstat" : o->k == WRITE ? "write" : "getfl", d->fd, ref ? "refused" : "closed");
            static struct stat st;
            if (ref) att_exp_val = -1;
            if (o->k == FSTAT) fstat_tx(d->fd, &st); else if (o->k == WRITE) write_tx(d->fd, "x", 1); else fcntl_tx(d->fd, F_GETFL);
            return;
        }
    }
    int n = o->n;
    switch (o->k) {
    case WRITE: case SEND: case SENDF: {
        if (c->kind == SOLO) return;
        if (!writes(c, s)) {
            if (o->k != WRITE || att_noundo) return;
            T("write(%d,%d) [read end] ", d->fd, n);
            att_expect(PICOTM_ERRNO, EBADF);
            write_tx(d->fd, wb, n ? n : 1);
            return;
        }
        if (o->k != WRITE && !issock(c)) {
            if (att_noundo) return;
            T("send(%d) [no socket] ", d->fd);
            att_expect(PICOTM_ERRNO, ENOTSOCK);
            send_tx(d->fd, wb, n, 0);
            return;
        }
        if (d->wrshut || c->s[!s].fd < 0 || c->s[!s].rdshut || c->s[!s].closed) {  /* nobody to receive it */
            if (!picotm_is_irrevocable() || att_noundo || !n || o->y / 8 % 2 || c->s[!s].closed) return;
            T("write(%d,%d) [peer gone] ", d->fd, n);
            att_expect(PICOTM_ERRNO, c->kind == PTYK ? EIO : -1);
            if (c->kind == DGRAMK || c->kind == PTYK) { att_exp_status = -1; return; }
            if (o->k == WRITE) write_tx(d->fd, wb, n); else send_tx(d->fd, wb, n, MSG_NOSIGNAL);
            return;
        }
        struct queue* q = &c->q[s];
        if (c->kind == SEQK && !n) return;  /* looks like the end of file */
        if (c->kind == PTYK && n > 500) n = 500;
        if (q->len + n > (c->kind == PTYK ? 2000 : QMAX) || (msgs(c->kind) && q->nm >= 8)) return;
        if (q->nm >= MM - 1) return;
        if (o->k == SENDF && msgs(c->kind) && o->y / 8 % 4 == 0) {     /* no such messages */
            if (att_noundo) return;
            if (!picotm_is_irrevocable()) att_redo = 1;
            T("send(%d,%d,OOB) ", d->fd, n);
            att_expect(PICOTM_ERRNO, EOPNOTSUPP);
            send_tx(d->fd, wb, n ? n : 1, MSG_OOB);
            return;
        }
        ++seq;
        for (int i = 0; i < n; ++i) wb[i] = 1 + (seq * 31 + i * (1 + seq % 3)) % 255;
        int fl = o->k == SENDF ? o->x & 1 ? MSG_NOSIGNAL : MSG_DONTWAIT : 0;
        if (o->k == SENDF && !picotm_is_irrevocable()) att_redo = 1;
        T("%s(%d,%d%s) ", o->k == WRITE ? "write" : "send", d->fd, n, fl ? ",flags" : "");
        bool im = picotm_is_irrevocable();
        ssize_t r = o->k == WRITE ? write_tx(d->fd, wb, n) : send_tx(d->fd, wb, n, fl);
        if (r != n) pbt_fail(P, "write", "attempt %d: write of %d bytes to descriptor %d returned %zd, errno %d", att_cur, n, d->fd, r, errno);
        memset(wb, 0x5a, n);    /* the module has its own copy */
        im = false; (void)im;
        for (int i = 0; i < n; ++i) wb[i] = 1 + (seq * 31 + i * (1 + seq % 3)) % 255;
        put(c, s, wb, n);
        memset(wb, 0x5a, sizeof wb);
        if (picotm_is_irrevocable()) irrev_done("write"); else wrote = 1;
        d->used = 1;
        break;
    }
    case READ: case RECV: case PEEK: {
        if (c->kind == SOLO) return;
        if (!reads(c, s)) {
            if (o->k != READ || att_noundo) return;
            T("read(%d,%d) [write end] ", d->fd, n);
            if (!picotm_is_irrevocable()) att_redo = 1;
            att_expect(PICOTM_ERRNO, EBADF);
            read_tx(d->fd, rb, n ? n : 1);
            return;
        }
        if (o->k != READ && !issock(c)) {
            if (att_noundo) return;
            T("recv(%d) [no socket] ", d->fd);
            att_expect(PICOTM_ERRNO, ENOTSOCK);
            recv_tx(d->fd, rb, n, 0);
            return;
        }
        /* a transaction that read nothing of it so far is irrevocable from here on, so
         * everything written before is there */
        int e = eof(c, s), em = empty(c, s);
        if (c->s[!s].closed) return;
        if (e && em && c->kind == DGRAMK) return;
        if (c->kind == PTYK && !n) return;
        if (em && !e && !d->nb) return;             /* would block */
        if (e && c->kind == PTYK) return;
        if (n == 0 && (c->kind == DGRAMK || c->kind == SEQK) && em) return;
        if (n == 0 && !msgs(c->kind) && em && !e) return;
        if (d->rdshut) return;
        memset(rb, 0xee, n + 16); memset(mb, 0xee, n + 16);
        if (full && em && !e) {
            if (att_noundo) return;
            att_expect(PICOTM_ERRNO, EAGAIN);
        }
        if (!picotm_is_irrevocable()) att_redo = 1;
        T("%s(%d,%d) ", o->k == READ ? "read" : o->k == PEEK ? "peek" : "recv", d->fd, n);
        errno = 0;
        ssize_t r = o->k == READ ? read_tx(d->fd, rb, n) : recv_tx(d->fd, rb, n, o->k == PEEK ? MSG_PEEK : 0);
        int er = errno;
        irrev_done("read");
        d->used = 1;
        if (em && !e) {
            if (r != -1 || (er != EAGAIN && er != EWOULDBLOCK)) pbt_fail(P, "eagain", "attempt %d: reading from empty non-blocking descriptor %d (%s) returned %zd, errno %d", att_cur, d->fd, kname[c->kind], r, er);
            break;
        }
        int x = em ? 0 : o->k == READ && n == 0 ? 0 : take(c, s, mb, n, o->k == PEEK);
        if (r != x) pbt_fail(P, "read", "attempt %d: %s of %d bytes from descriptor %d (%s) returned %zd, %d are available", att_cur, o->k == READ ? "read" : "recv", n, d->fd, kname[c->kind], r, x);
        for (int i = 0; i < n + 16; ++i) if (rb[i] != mb[i])
            pbt_fail(P, "read-data", "attempt %d: byte %d of the buffer of a read of %d bytes from descriptor %d (%s) is %d, expected %d", att_cur, i, n, d->fd, kname[c->kind], rb[i], mb[i]);
        if (r > 0) pbt_label(P, "read");
        break;
    }
    case FSTAT: {
        static struct stat st, sk;
        T("fstat(%d) ", d->fd);
        SYS(fstat(d->fd, &sk));
        int r = fstat_tx(d->fd, &st);
        if (r || st.st_mode != sk.st_mode || st.st_ino != sk.st_ino || st.st_dev != sk.st_dev || st.st_rdev != sk.st_rdev) pbt_fail(P, "fstat", "attempt %d: fstat of descriptor %d returned %d mode %o, expected %o", att_cur, d->fd, r, st.st_mode, sk.st_mode);
        d->used = 1;
        break;
    }
    case GETFL: {
        T("getfl(%d) ", d->fd);
        int k = fcntl(d->fd, F_GETFL), r = fcntl_tx(d->fd, F_GETFL);
        if (r != k) pbt_fail(P, "getfl", "attempt %d: F_GETFL of descriptor %d returned %#x, expected %#x", att_cur, d->fd, r, k);
        d->used = 1;
        break;
    }
    case SETFL: {
        int fl = fcntl(d->fd, F_GETFL) & ~O_NONBLOCK, nb = o->x & 1;
        if (!picotm_is_irrevocable()) att_redo = 1;
        T("setfl(%d,%s) ", d->fd, nb ? "O_NONBLOCK" : "0");
        int r = fcntl_tx(d->fd, F_SETFL, fl | (nb ? O_NONBLOCK : 0));
        if (r) pbt_fail(P, "setfl", "attempt %d: F_SETFL of descriptor %d returned %d", att_cur, d->fd, r);
        irrev_done("F_SETFL");
        d->nb = nb;
        d->used = 1;
        break;
    }
    case POS: {
        if (att_noundo) return;
        T("%s(%d) ", o->x % 3 == 0 ? "lseek" : o->x % 3 == 1 ? "pread" : "pwrite", d->fd);
        att_expect(PICOTM_ERRNO, ESPIPE);
        if (o->x % 3 == 0) lseek_tx(d->fd, 0, SEEK_CUR);
        else if (o->x % 3 == 1) { if (!reads(c, s)) att_exp_val = -1; pread_tx(d->fd, rb, n + 1, 0); }
        else { if (!writes(c, s)) att_exp_val = -1; pwrite_tx(d->fd, wb, n + 1, 0); }
        break;
    }
    case CLOSE: {
        if (o->y / 32 % 2) return;
        if (c->kind == PTYK) return;
        T("close(%d) ", d->fd);
        int r = close_tx(d->fd);
        if (r) pbt_fail(P, "close", "attempt %d: close of descriptor %d returned %d", att_cur, d->fd, r);
        d->used = d->closed = 1;
        break;
    }
    case SHUT: {
        if (c->kind == SOLO || (o->y / 32 % 2)) return;
        if (!issock(c)) {
            if (att_noundo) return;
            T("shutdown(%d) ", d->fd);
            att_expect(PICOTM_ERRNO, ENOTSOCK);
            shutdown_tx(d->fd, SHUT_WR);
            return;
        }
        if (c->s[!s].fd < 0 || c->s[!s].closed || c->kind == DGRAMK || d->wrshut) return;
        if (!picotm_is_irrevocable()) att_redo = 1;
        T("shutdown(%d) ", d->fd);
        int r = shutdown_tx(d->fd, SHUT_WR);
        if (r) pbt_fail(P, "shutdown", "attempt %d: shutdown returned %d", att_cur, r);
        irrev_done("shutdown");
        d->wrshut = 1; d->used = 1;
        break;
    }
    case PIPE: {
        if (vnchan >= NC) return;
        static int fds[2];
        fds[0] = fds[1] = -1;
        T("pipe()");
        int r = pipe_tx(fds);
        T("=%d,%d ", fds[0], fds[1]);
        if (r) pbt_fail(P, "pipe", "attempt %d: pipe returned %d", att_cur, r);
        chk_new(fds[0], "pipe"); chk_new(fds[1], "pipe");
        if (fds[0] == fds[1]) pbt_fail(P, "pipe", "attempt %d: pipe returned descriptor %d twice", att_cur, fds[0]);
        newchan(PIPEK, fds[1], fds[0], 0);
        break;
    }
    case SOCK: {
        if (o->y % 8 == 0 && !att_noundo) {
            T("socket(bad) ");
            int e = socket(AF_UNIX, 77, 0); e = errno;
            att_expect(PICOTM_ERRNO, e);
            socket_tx(AF_UNIX, 77, 0);
            return;
        }
        if (vnchan >= NC) return;
        T("socket()");
        int r = socket_tx(AF_UNIX, SOCK_STREAM, 0);
        T("=%d ", r);
        chk_new(r, "socket");
        newchan(SOLO, r, -1, 0);
        V[vnchan - 1].s[0].used = 1;
        break;
    }
    case CONNECT: case LISTEN: {        /* on a socket that isn't connected */
        if (o->k == LISTEN && o->y / 16 % 2) {      /* one step with a socket from before */
            if (Bused || vB >= 2) return;
            static struct sockaddr_un ba;
            memset(&ba, 0, sizeof ba);
            ba.sun_family = AF_UNIX;
            strcpy(ba.sun_path, Bpath);
            if (!picotm_is_irrevocable()) att_redo = 1;
            Bused = 1;
            T("%s(%d) ", vB ? "listen" : "bind", Bfd);
            int r = vB ? listen_tx(Bfd, 100) : bind_tx(Bfd, (struct sockaddr*)&ba, sizeof ba);
            if (r) pbt_fail(P, "listen", "attempt %d: %s returned %d", att_cur, vB ? "listen" : "bind", r);
            ++vB;
            irrev_done(vB == 2 ? "listen" : "bind");
            break;
        }
        if (vnchan >= NC) return;
        int i; for (i = 0; i < vnchan; ++i) if (V[i].kind == SOLO && V[i].s[0].fd >= 0 && !V[i].s[0].closed && !V[i].s[0].rdshut && !V[i].s[0].wrshut) break;
        if (i == vnchan) return;
        c = &V[i];
        static struct sockaddr_un a;
        static socklen_t al;
        memset(&a, 0, sizeof a);
        a.sun_family = AF_UNIX;
        if (!picotm_is_irrevocable()) att_redo = 1;
        if (o->k == CONNECT) {
            strcpy(a.sun_path, Lpath);
            if (o->y % 8 == 0) {
                if (att_noundo) return;
                strcpy(a.sun_path + strlen(a.sun_path), "-none");
                att_expect(PICOTM_ERRNO, ENOENT);
            }
            T("connect(%d) ", c->s[0].fd);
            int r = connect_tx(c->s[0].fd, (struct sockaddr*)&a, sizeof a);
            if (o->y % 8 == 0) return;
            if (r) pbt_fail(P, "connect", "attempt %d: connect returned %d", att_cur, r);
            irrev_done("connect");
            int p = accept(Lfd, NULL, NULL);
            if (p < 0) pbt_fail(P, "connect", "attempt %d: no connection arrived: %s", att_cur, strerror(errno));
            c->kind = STREAMK;
            c->s[1] = (struct side){ .fd = p, .ext = 1 };
            c->s[0].used = 1;
        } else {
            snprintf(a.sun_path, sizeof a.sun_path, "%s/b%d", Rd, seq++);
            al = sizeof a;
            T("bind+listen(%d) ", c->s[0].fd);
            int r = bind_tx(c->s[0].fd, (struct sockaddr*)&a, al);
            irrev_done("bind");
            att_redo = 0;
            if (r) pbt_fail(P, "bind", "attempt %d: bind returned %d", att_cur, r);
            r = listen_tx(c->s[0].fd, 5);
            if (r) pbt_fail(P, "listen", "attempt %d: listen returned %d", att_cur, r);
            int p = socket(AF_UNIX, SOCK_STREAM, 0);
            if (connect(p, (struct sockaddr*)&a, sizeof a)) pbt_fail(P, "listen", "attempt %d: cannot connect to the bound address: %s", att_cur, strerror(errno));
            close(p);
            c->s[0].rdshut = c->s[0].wrshut = c->s[0].used = 1;
        }
        break;
    }
    case ACCEPT: {
        if (vnchan >= NC || o->y % 2) return;
        static struct sockaddr_un a;
        static socklen_t al, al2;
        static struct sockaddr_un pa;
        if (!lconn) {           /* a peer that waits for being accepted; survives restarts */
            lconn = SYS(socket(AF_UNIX, SOCK_STREAM, 0));
            memset(&pa, 0, sizeof pa);
            pa.sun_family = AF_UNIX;
            snprintf(pa.sun_path, sizeof pa.sun_path, "%s/p%d", Rd, seq++);
            SYS(bind(lconn, (struct sockaddr*)&pa, sizeof pa));
            struct sockaddr_un l = { .sun_family = AF_UNIX };
            strcpy(l.sun_path, Lpath);
            SYS(connect(lconn, (struct sockaddr*)&l, sizeof l));
        }
        if (!picotm_is_irrevocable()) att_redo = 1;
        bool wa = o->x & 1, sh = o->x & 2;
        al2 = sh ? 6 + o->x / 4 % 10 : sizeof a;
        memset(&a, 0x77, sizeof a);
        al = o->x & 64 ? 0 : al2;
        T("accept(%s %d)", wa ? "addr" : "", wa ? (int)al2 : 0);
        if (wa && o->x & 64) store_tx(&al, &al2, sizeof al);    /* the length is set in the transaction */
        int r = accept_tx(Lfd, wa ? (struct sockaddr*)&a : NULL, wa ? &al : NULL);
        T("=%d ", r);
        irrev_done("accept");
        chk_new(r, "accept");
        if (wa) {
            static struct sockaddr_un ka; socklen_t kl = sizeof ka;
            SYS(getpeername(r, (struct sockaddr*)&ka, &kl));
            static socklen_t gl;
            load_tx(&al, &gl, sizeof gl);
            if (gl != kl) pbt_fail(P, "accept", "attempt %d: accept reported an address of %d bytes, expected %d", att_cur, (int)gl, (int)kl);
            unsigned m = kl < al2 ? kl : al2;
            static unsigned char ga[sizeof a];
            load_tx(&a, ga, m);
            if (memcmp(ga, &ka, m)) pbt_fail(P, "accept", "attempt %d: accept reported a wrong address", att_cur);
            for (unsigned i = m; i < sizeof a; ++i) if (((unsigned char*)&a)[i] != 0x77) pbt_fail(P, "accept", "attempt %d: accept wrote beyond the address buffer of %u bytes", att_cur, (unsigned)al2);
        }
        newchan(STREAMK, r, lconn, 1);
        V[vnchan - 1].s[0].used = 1;
        lconn = 0;
        break;
    }
    }
}

static void gen(struct pbt* p, struct aop* o)
{
    o->k = PBT_W(p, 10, 6, 1, 3, 3, 1, 1, 1, 1, 1, 2, 1, 2, 1, 1, 1, 1);
    o->s = pbt_draw(p, 2 * NC * 3);
    switch (PBT_W(p, 6, 2, 1, 1)) {
    case 0: o->n = 1 + pbt_draw(p, 20); break;
    case 1: o->n = pbt_draw(p, 200); break;
    case 2: o->n = 0; break;
    case 3: o->n = pbt_draw(p, sizeof wb); break;
    }
    o->x = pbt_draw(p, 1 << 12);
    o->y = pbt_draw(p, 1 << 12);
}

static void add(int kind, int a, int b, int nb, int ext)
{
    vnchan = nchan;
    int i = newchan(kind, a, b, ext);
    C[i] = V[i];
    C[i].s[0].fresh = C[i].s[1].fresh = 0;
    C[i].s[0].nb = !!(nb & 1); C[i].s[1].nb = !!(nb & 2);
    for (int s = 0; s < 2; ++s) if (C[i].s[s].nb) fcntl(C[i].s[s].fd, F_SETFL, fcntl(C[i].s[s].fd, F_GETFL) | O_NONBLOCK);
    nchan = vnchan;
    T("%s %d,%d%s%s\n", kname[kind], a, b, nb & 1 ? " nb0" : "", nb & 2 ? " nb1" : "");
}

void prop_init(void) { signal(SIGPIPE, SIG_IGN); }

static void seq_case(struct pbt* p)
{
    snprintf(Rd, sizeof Rd, "%s", pbt_scratch());
    snprintf(Lpath, sizeof Lpath, "%s/listen", Rd);
    nchan = vnchan = 0;
    ok_undone = ok_arrived = 0;
    seq = 0;
    lconn = 0;
    full = pbt_chance(p, 1, 4);
    picotm_libc_set_error_recovery(full ? PICOTM_LIBC_ERROR_RECOVERY_FULL : PICOTM_LIBC_ERROR_RECOVERY_AUTO);
    T("%s", full ? "recovering from all errors\n" : "");
    if (picotm_libc_get_error_recovery() != (full ? PICOTM_LIBC_ERROR_RECOVERY_FULL : PICOTM_LIBC_ERROR_RECOVERY_AUTO)) pbt_fail(p, "settings", "the strategy for errors is not the one that was set");
    /* the modes of file types are settings of the process; they do not change any result */
    static enum picotm_libc_cc_mode cc[5] = { PICOTM_LIBC_CC_MODE_2PL, PICOTM_LIBC_CC_MODE_2PL, PICOTM_LIBC_CC_MODE_2PL, PICOTM_LIBC_CC_MODE_2PL, PICOTM_LIBC_CC_MODE_2PL };
    for (int i = pbt_draw(p, 3); i > 0; --i) { int k = pbt_draw(p, 5); cc[k] = pbt_draw(p, 2) ? PICOTM_LIBC_CC_MODE_2PL : PICOTM_LIBC_CC_MODE_NOUNDO; picotm_libc_set_file_type_cc_mode(k, cc[k]); }
    for (int k = 0; k < 5; ++k) if (picotm_libc_get_file_type_cc_mode(k) != cc[k]) pbt_fail(p, "settings", "the mode of file type %d is not the one that was set", k);
    char cmd[200]; snprintf(cmd, sizeof cmd, "%s/fifo", Rd);
    unlink(Lpath);
    for (int i = 0; i < 200; ++i) { char b[200]; snprintf(b, sizeof b, "%s/b%d", Rd, i); unlink(b); snprintf(b, sizeof b, "%s/p%d", Rd, i); unlink(b); }
    struct sockaddr_un l = { .sun_family = AF_UNIX };
    strcpy(l.sun_path, Lpath);
    Lfd = SYS(socket(AF_UNIX, SOCK_STREAM, 0));
    SYS(bind(Lfd, (struct sockaddr*)&l, sizeof l));
    SYS(listen(Lfd, 10));
    snprintf(Bpath, sizeof Bpath, "%s/bound", Rd);
    unlink(Bpath);
    Bfd = SYS(socket(AF_UNIX, pbt_draw(p, 2) ? SOCK_SEQPACKET : SOCK_STREAM, 0));
    cB = pbt_draw(p, 2);
    if (cB) {
        strcpy(l.sun_path, Bpath);
        SYS(bind(Bfd, (struct sockaddr*)&l, sizeof l));
    }
    int n = 1 + pbt_draw(p, 4);
    for (int i = 0; i < n; ++i) {
        int fd[2], nb = pbt_draw(p, 4);
        int k = PBT_W(p, 4, 2, 4, 3, 2, 2);
        switch (k) {
        case PIPEK: SYS(pipe(fd)); add(k, fd[1], fd[0], nb, 0); break;
        case FIFOK: {
            unlink(cmd);
            SYS(mkfifo(cmd, 0600));
            fd[1] = SYS(open(cmd, O_RDONLY | O_NONBLOCK)); fd[0] = SYS(open(cmd, O_WRONLY));
            fcntl(fd[1], F_SETFL, 0);
            add(k, fd[0], fd[1], nb, 0);
            break;
        }
        case STREAMK: case DGRAMK: case SEQK:
            SYS(socketpair(AF_UNIX, k == STREAMK ? SOCK_STREAM : k == DGRAMK ? SOCK_DGRAM : SOCK_SEQPACKET, 0, fd));
            add(k, fd[0], fd[1], nb, 0); break;
        case PTYK: {
            int m = posix_openpt(O_RDWR | O_NOCTTY), sl;
            if (m < 0 || grantpt(m) || unlockpt(m) || (sl = open(ptsname(m), O_RDWR | O_NOCTTY)) < 0) {
                if (m >= 0) close(m);
                SYS(pipe(fd)); add(PIPEK, fd[1], fd[0], nb, 0);
                break;
            }
            struct termios t;
            tcgetattr(sl, &t); cfmakeraw(&t); tcsetattr(sl, TCSANOW, &t);
            add(k, sl, m, nb & 1, 1);
            break;
        }
        }
    }
    int ntx = 1 + pbt_draw(p, 5);
    for (int t = 0; t < ntx; ++t) { att_gen(p, gen, NULL); T("tx %d\n", t); att_run(); }
    for (int i = 0; i < nchan; ++i) for (int s = 0; s < 2; ++s) if (C[i].s[s].fd >= 0) close(C[i].s[s].fd);
    if (lconn) close(lconn);
    close(Lfd);
    close(Bfd);
    if (ok_undone && ok_arrived) pbt_nontrivial(p);
}

void prop_case(struct pbt* p) { P = p; seq_case(p); }
