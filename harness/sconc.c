/* F04: concurrent output to streams. Threads write tagged messages in transactions to shared pipes,
 * sockets and terminals, some of which are read in transactions by others. In what arrives, the
 * messages of each committed transaction are contiguous and in order, none is lost, doubled or comes
 * from a transaction that was rolled back, and one order of the transactions explains all streams.
 * Mode "block": more data than fits, blocking and non-blocking, with a slow reader. */
#define _GNU_SOURCE
#include "mt.h"
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <termios.h>
#include <sys/socket.h>
#include <picotm/picotm.h>
#include <picotm/picotm-module.h>
#include <picotm/picotm-libc.h>
#include <picotm/unistd.h>
#include <picotm/sys/socket.h>

const char prop_rule[] =
    "2-6 threads with 1-5 transactions of 1-6 writes of tagged messages to 1-4 shared pipes, socket pairs and terminals "
    "(blocking and non-blocking), some transactions fail, become irrevocable or read from a stream; generated schedules at "
    "operation granularity or free-running. Oracle: each committed transaction's messages arrive contiguously, in order, "
    "once; none of others; one order of transactions, compatible with real time, explains all streams. Mode block: "
    "transactions with up to 300 KiB on blocking and non-blocking streams with a slow reader. Non-trivial: two threads' "
    "committed transactions wrote to two common streams or a transaction restarted; (block) more data than the stream holds.";
int prop_timeout_ms = 20000;

enum { MAXT = 6, MAXTX = 5, MAXOP = 6, NSTR = 4, MAXREC = 600, MAXMSG = 4000 };
enum { PIPEK, STREAMK, DGRAMK, SEQK, PTYK };
static const char* const kname[] = { "pipe", "stream", "dgram", "seqpacket", "pty" };
struct op { int read; unsigned s, n; };
struct tx { int n, fail, irrev; struct op op[MAXOP]; };
static struct { int n; struct tx tx[MAXTX]; } prog[MAXT];
static struct { int kind, w, r; } S[NSTR];
static int ns, nthreads, race;
static struct pbt* P;

/* attempts; written messages per stream */
struct rec { int thread, committed, nmsg[NSTR]; uint64_t begin, end; };
static struct rec recs[MAXREC];
static int nrec, restarted;
static struct msg { uint64_t tick; int rec, seq; } in[NSTR][MAXMSG];    /* received by transactions */
static int nin[NSTR];
static __thread struct rec* R;
static pthread_mutex_t rlock = PTHREAD_MUTEX_INITIALIZER;
static pthread_barrier_t bar;
static uint8_t sched[512];

struct wire { uint32_t magic; uint16_t rec, seq, len; uint8_t pay[54]; } __attribute__((packed));   /* 64 bytes */

static void parse(int s, const struct wire* w, uint64_t tick)
{
    if (w->magic != 0x50544d21) pbt_fail(P, "garbage", "stream %d: received garbage", s);
    if (w->rec >= nrec) pbt_fail(P, "garbage", "stream %d: received message of attempt %d", s, w->rec);
    for (unsigned i = 0; i < sizeof w->pay; ++i) if (w->pay[i] != (uint8_t)(w->rec * 7 + w->seq * 3 + i)) pbt_fail(P, "garbage", "stream %d: payload of message %d of attempt %d is damaged", s, w->seq, w->rec);
    int i = __atomic_fetch_add(&nin[s], 1, __ATOMIC_SEQ_CST);
    if (i >= MAXMSG) pbt_fail(P, "duplicates", "stream %d: too many messages", s);
    in[s][i] = (struct msg){ tick, w->rec, w->seq };
}

static void do_op(int t, struct op* o)
{
    static __thread struct wire w[4];
    int s = o->s % ns;
    (void)t;
    if (o->read) {
        if (S[s].kind == PTYK || S[s].kind == PIPEK) return;
        ssize_t r = recv_tx(S[s].r, w, sizeof w[0], MSG_DONTWAIT);
        if (!picotm_is_irrevocable()) pbt_fail(P, "revocable", "recv() succeeded in a transaction that can be rolled back");
        if (r < 0 && (errno == EAGAIN || errno == EWOULDBLOCK)) return;
        if (r != sizeof w[0]) pbt_fail(P, "recv", "recv() returned %zd", r);
        parse(s, w, mt_tick());
        return;
    }
    unsigned n = 1 + o->n % 3;
    int id = R - recs;
    for (unsigned i = 0; i < n; ++i) {
        w[i].magic = 0x50544d21; w[i].rec = id; w[i].seq = R->nmsg[s] + i; w[i].len = 0;
        for (unsigned j = 0; j < sizeof w->pay; ++j) w[i].pay[j] = id * 7 + w[i].seq * 3 + j;
    }
    if (S[s].kind == DGRAMK || S[s].kind == SEQK) {
        for (unsigned i = 0; i < n; ++i) { ssize_t r = o->n & 4 ? send_tx(S[s].w, &w[i], sizeof w[0], 0) : write_tx(S[s].w, &w[i], sizeof w[0]);
            if (r != sizeof w[0]) pbt_fail(P, "write", "write returned %zd", r); }
    } else {
        ssize_t r = write_tx(S[s].w, w, n * sizeof w[0]);
        if (r != (ssize_t)(n * sizeof w[0])) pbt_fail(P, "write", "write returned %zd", r);
    }
    R->nmsg[s] += n;
}

__attribute__((noinline)) static void run_tx(int t, struct tx* x)
{
    static __thread volatile int i;
    R = NULL;
    picotm_begin
        mt_attempt(P, R != NULL, picotm_is_irrevocable());
        if (R) { R->end = mt_tick(); restarted = 1; }
        pthread_mutex_lock(&rlock);
        if (nrec >= MAXREC) pbt_inconclusive(P, "attempts");
        R = &recs[nrec++];
        memset(R, 0, sizeof *R);
        pthread_mutex_unlock(&rlock);
        R->thread = t;
        R->begin = mt_tick();
        if (x->irrev && !picotm_is_irrevocable()) picotm_irrevocable();
        for (i = 0; i < x->n; ++i) {
            if (!race) mt_point();
            do_op(t, &x->op[i]);
        }
        if (!race) mt_point();
        if (x->fail && !picotm_is_irrevocable()) picotm_recover_from_error_code(PICOTM_GENERAL_ERROR);
    picotm_commit
        if (!x->fail) pbt_fail(P, "error", "unexpected recovery %d (%ld)", picotm_error_status(), picotm_error_status() == PICOTM_ERRNO ? (long)picotm_error_as_errno() : -1);
        R->end = mt_tick();
        mt_finished(); return;
    picotm_end
    mt_finished();
    R->end = mt_tick();
    R->committed = 1;
}

static void body(int t)
{
    if (race) pthread_barrier_wait(&bar);
    for (int i = 0; i < prog[t].n; ++i) run_tx(t, &prog[t].tx[i]);
    picotm_release();
}

static int mk(int kind, int nb, int* w, int* r)
{
    int fd[2];
    if (kind == PTYK) {
        int m = posix_openpt(O_RDWR | O_NOCTTY), sl;
        if (m >= 0 && !grantpt(m) && !unlockpt(m) && (sl = open(ptsname(m), O_RDWR | O_NOCTTY)) >= 0) {
            struct termios t;
            tcgetattr(sl, &t); cfmakeraw(&t); tcsetattr(sl, TCSANOW, &t);
            *w = sl; *r = m;
        } else { if (m >= 0) close(m); kind = PIPEK; }
    }
    if (kind == PIPEK) { if (pipe(fd)) pbt_inconclusive(P, "pipe"); *r = fd[0]; *w = fd[1]; }
    else if (kind != PTYK) {
        if (socketpair(AF_UNIX, kind == STREAMK ? SOCK_STREAM : kind == DGRAMK ? SOCK_DGRAM : SOCK_SEQPACKET, 0, fd)) pbt_inconclusive(P, "socketpair");
        *w = fd[0]; *r = fd[1];
    }
    if (nb) fcntl(*w, F_SETFL, fcntl(*w, F_GETFL) | O_NONBLOCK);
    return kind;
}

static uint8_t reach[MAXREC][MAXREC];

static void check(struct pbt* p)
{
    static int ord[MAXREC];
    memset(reach, 0, sizeof reach);
    int n = 0;
    for (int s = 0; s < ns; ++s) {
        /* what is left */
        static uint8_t b[1 << 18];
        size_t got = 0;
        struct pollfd pf = { S[s].r, POLLIN, 0 };
        while (poll(&pf, 1, 0) > 0 && pf.revents & POLLIN) {
            ssize_t r = read(S[s].r, b + got, sizeof b - got);
            if (r <= 0) break;
            got += r;
        }
        if (got % sizeof(struct wire)) pbt_fail(p, "torn", "stream %d (%s): %zu bytes left over", s, kname[S[s].kind], got);
        for (size_t i = 0; i < got; i += sizeof(struct wire)) parse(s, (struct wire*)(b + i), ~0ull);
        /* reads are serialized by irrevocability: the order of arrival is the order of ticks */
        for (int i = 1; i < nin[s]; ++i) for (int j = i; j && in[s][j].tick < in[s][j - 1].tick; --j) { struct msg m = in[s][j]; in[s][j] = in[s][j - 1]; in[s][j - 1] = m; }
        static int seen[MAXREC];
        memset(seen, 0, sizeof seen);
        int last = -1;
        for (int i = 0; i < nin[s]; ++i) {
            struct msg* m = &in[s][i];
            struct rec* r = &recs[m->rec];
            if (!r->committed) pbt_fail(p, "uncommitted", "stream %d (%s): message %d of attempt %d (thread %d) arrived, which did not commit", s, kname[S[s].kind], m->seq, m->rec, r->thread);
            if (m->rec != last && seen[m->rec]) pbt_fail(p, "interleaved", "stream %d (%s): the messages of attempt %d are not contiguous or doubled", s, kname[S[s].kind], m->rec);
            if (m->seq != seen[m->rec]) pbt_fail(p, "order", "stream %d (%s): message %d of attempt %d arrived instead of message %d", s, kname[S[s].kind], m->seq, m->rec, seen[m->rec]);
            if (m->rec != last && last >= 0) reach[last][m->rec] = 1;
            last = m->rec;
            ++seen[m->rec];
        }
        for (int i = 0; i < nrec; ++i) if (recs[i].committed && seen[i] != recs[i].nmsg[s])
            pbt_fail(p, "lost", "stream %d (%s): %d of %d messages of attempt %d (thread %d) arrived", s, kname[S[s].kind], seen[i], recs[i].nmsg[s], i, recs[i].thread);
    }
    for (int i = 0; i < nrec; ++i) if (recs[i].committed) for (int j = 0; j < nrec; ++j)
        if (recs[j].committed && recs[i].end < recs[j].begin) reach[i][j] = 1;
    /* acyclic? */
    static int indeg[MAXREC];
    memset(indeg, 0, sizeof indeg);
    int tot = 0;
    for (int i = 0; i < nrec; ++i) if (recs[i].committed) { ++tot; for (int j = 0; j < nrec; ++j) indeg[j] += reach[i][j]; }
    static int done[MAXREC];
    memset(done, 0, sizeof done);
    for (bool go = true; go;) {
        go = false;
        for (int i = 0; i < nrec; ++i) if (recs[i].committed && !done[i] && !indeg[i]) { done[i] = 1; ord[n++] = i; go = true; for (int j = 0; j < nrec; ++j) indeg[j] -= reach[i][j]; }
    }
    (void)ord;
    if (n != tot) {
        int i; for (i = 0; i < nrec; ++i) if (recs[i].committed && !done[i]) break;
        pbt_fail(p, "serial", "no order of the transactions explains all streams (attempt %d of thread %d)", i, recs[i].thread);
    }
}

static void conc_case(struct pbt* p)
{
    ns = 1 + pbt_draw(p, NSTR);
    nthreads = 2 + pbt_draw(p, MAXT - 1);
    for (int s = 0; s < ns; ++s) {
        S[s].kind = mk(PBT_W(p, 4, 3, 0, 3, 1), pbt_chance(p, 1, 3), &S[s].w, &S[s].r);
        pbt_trace(p, "s%d: %s\n", s, kname[S[s].kind]);
    }
    int reads = pbt_chance(p, 1, 3), total[NSTR] = { 0 };
    for (int t = 0; t < nthreads; ++t) {
        prog[t].n = 1 + pbt_draw(p, race ? MAXTX : 3);
        pbt_trace(p, "T%d:", t);
        for (int i = 0; i < prog[t].n; ++i) {
            struct tx* x = &prog[t].tx[i];
            x->n = 1 + pbt_draw(p, MAXOP);
            x->irrev = pbt_chance(p, 1, 10);
            x->fail = pbt_chance(p, 1, 8);
            pbt_trace(p, " {%s%s", x->irrev ? "irrevocable " : "", x->fail ? "fails " : "");
            for (int j = 0; j < x->n; ++j) {
                struct op* o = &x->op[j];
                o->s = pbt_draw(p, ns); o->n = pbt_draw(p, 6);
                o->read = reads && pbt_chance(p, 1, 4) && S[o->s].kind != PIPEK && S[o->s].kind != PTYK;
                /* data of irrevocable transactions is out at once; they cannot fail */
                if (!o->read) { total[o->s] += 1 + o->n % 3; if (total[o->s] > (S[o->s].kind == PTYK ? 40 : 120)) { o->read = 1; } }
                if (o->read || x->irrev) x->fail = 0;
                pbt_trace(p, " %s(%u,%u)", o->read ? "read" : "write", o->s, 1 + o->n % 3);
            }
            pbt_trace(p, "}");
        }
        pbt_trace(p, "\n");
    }
    int nsch = race ? 0 : mt_gen_sched(p, sched, sizeof(sched));
    nrec = restarted = 0; mt_clock = 0;
    memset(nin, 0, sizeof nin);
    if (race) {
        pthread_barrier_init(&bar, NULL, nthreads);
        mt_stress(nthreads, body);
        pthread_barrier_destroy(&bar);
    } else mt_run(nthreads, body, sched, nsch);
    check(p);
    for (int s = 0; s < ns; ++s) { close(S[s].w); close(S[s].r); }
    int common = 0;
    for (int i = 0; i < nrec; ++i) for (int j = 0; j < i; ++j) if (recs[i].committed && recs[j].committed && recs[i].thread != recs[j].thread) {
        int c = 0; for (int s = 0; s < ns; ++s) c += recs[i].nmsg[s] && recs[j].nmsg[s];
        if (c > 1) common = 1;
    }
    if (common || restarted) pbt_nontrivial(p);
    if (restarted) pbt_label(p, "restart");
}

/* more than fits */
enum { BMAX = 400000 };
static uint8_t sent[BMAX], got[BMAX];
static volatile size_t ngot;
static volatile int stop;
static unsigned chunk, delay;
static void* reader(void* a)
{
    static uint8_t b[1 << 16];
    (void)a;
    for (;;) {
        struct pollfd pf = { S[0].r, POLLIN, 0 };
        int k = poll(&pf, 1, 5);
        if (k > 0 && pf.revents & POLLIN) {
            ssize_t r = read(S[0].r, b, S[0].kind >= DGRAMK && S[0].kind != PTYK ? sizeof b : chunk);
            if (r < 0) continue;
            if (ngot + r > BMAX) pbt_fail(P, "block-extra", "more data arrived than was written");
            memcpy(got + ngot, b, r);
            ngot += r;
            if (delay) usleep(delay);
        } else if (k > 0 && pf.revents) return NULL;
        else if (!k && stop) return NULL;
    }
}
static volatile int b_n, b_fail, b_i;
static unsigned b_len[12];
__attribute__((noinline)) static void block_tx(size_t off)
{
    static volatile size_t o;
    picotm_begin
        o = off;
        for (b_i = 0; b_i < b_n; ++b_i) {
            ssize_t r = b_i & 1 && S[0].kind != PIPEK && S[0].kind != PTYK ? send_tx(S[0].w, sent + o, b_len[b_i], 0) : write_tx(S[0].w, sent + o, b_len[b_i]);
            if (r != (ssize_t)b_len[b_i]) pbt_fail(P, "block-write", "write of %u bytes returned %zd", b_len[b_i], r);
            o += r;
        }
        if (b_fail) picotm_recover_from_error_code(PICOTM_GENERAL_ERROR);
    picotm_commit
        if (!b_fail) pbt_fail(P, "error", "unexpected recovery %d", picotm_error_status());
    picotm_end
}
static void block_case(struct pbt* p)
{
    int kinds = PBT_W(p, 3, 3, 1, 2, 2), nb = pbt_chance(p, 2, 3);
    S[0].kind = mk(kinds, nb, &S[0].w, &S[0].r);
    static const unsigned cs[] = { 4096, 100, 1, 65536, 1000 };
    chunk = cs[pbt_draw(p, 5)]; delay = pbt_chance(p, 1, 3) ? 20 : 0;
    int ntx = 1 + pbt_draw(p, 3);
    size_t off = 0;
    bool msg = S[0].kind == DGRAMK || S[0].kind == SEQK;
    size_t lim = S[0].kind == PTYK ? 20000 : chunk == 1 ? 80000 : BMAX;
    ngot = 0; stop = 0;
    pthread_t th;
    pbt_trace(p, "%s%s, chunks of %u\n", kname[S[0].kind], nb ? " non-blocking" : "", chunk);
    pthread_create(&th, NULL, reader, NULL);
    for (int t = 0; t < ntx; ++t) {
        b_n = 1 + pbt_draw(p, 12);
        b_fail = pbt_chance(p, 1, 4);
        size_t sum = 0;
        pbt_trace(p, "tx%s:", b_fail ? " fails" : "");
        for (int i = 0; i < b_n; ++i) {
            b_len[i] = pbt_chance(p, 1, 3) ? pbt_draw(p, 100) : pbt_draw(p, msg ? 30000 : 60000);
            if (off + sum + b_len[i] > lim) b_len[i] = 0;
            if (S[0].kind == SEQK && !b_len[i]) b_len[i] = off + sum < lim;
            if (b_len[i] + off + sum > BMAX) b_len[i] = 0;
            pbt_trace(p, " %u", b_len[i]);
            sum += b_len[i];
        }
        pbt_trace(p, "\n");
        for (size_t i = off; i < off + sum; ++i) sent[i] = (i * 2654435761u >> 13) ^ (t * 5);
        if (b_fail) { static uint8_t sv[BMAX]; memcpy(sv, sent, off + sum); }
        block_tx(off);
        if (!b_fail) off += sum;
    }
    /* wait for it */
    for (int i = 0; i < 3000 && ngot < off; ++i) usleep(1000);
    stop = 1;
    pthread_join(th, NULL);
    if (ngot != off) pbt_fail(p, "block-lost", "%zu of %zu bytes arrived through the %s", (size_t)ngot, off, kname[S[0].kind]);
    for (size_t i = 0; i < off; ++i) if (got[i] != sent[i]) pbt_fail(p, "block-data", "byte %zu of %zu arrived as %d, was %d", i, off, got[i], sent[i]);
    close(S[0].w); close(S[0].r);
    picotm_release();
    if (off > 65536 || (S[0].kind == PTYK && off > 4096)) pbt_nontrivial(p);
}

void prop_init(void) { signal(SIGPIPE, SIG_IGN); }
void prop_case(struct pbt* p)
{
    P = p;
    race = !strcmp(pbt_mode, "race");
    if (!strcmp(pbt_mode, "block")) block_case(p); else conc_case(p);
}
