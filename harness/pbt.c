#define _GNU_SOURCE
#include "pbt.h"
#include <errno.h>
#include <fcntl.h>
#include <ftw.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#define MAXCHOICES  (1u << 16)
#define TRACESZ     (1u << 16)
#define MSGSZ       4096
#define MAXSLOTS    64
#define MAXLABELS   128
#define DISTINCT    (1u << 22)
#define NSAMPLES    6
#define EXIT_FAIL   77
#define EXIT_INCONC 78
#define EXIT_ASAN   66

struct pbt {
    bool        replay;
    uint64_t    rng[4];
    unsigned    size;
    uint32_t    pos;
    uint32_t    nin;            /* choices available in replay mode */
    const uint64_t* in;
};

struct slot {
    volatile uint64_t start_ns;
    volatile uint32_t idx;
    uint64_t    batch;
    uint32_t    nchoices;
    uint32_t    trace_len;
    int         nontrivial;
    char        tag[64];
    char        msg[MSGSZ];
    char        trace[TRACESZ];
    uint64_t    choices[MAXCHOICES];
};

struct shared {
    uint64_t    evals, nontrivial, distinct, inconclusive, hangs_unrep;
    struct { char name[64]; uint64_t n; } label[MAXLABELS];
    pthread_mutex_t lock;
    int         nsamples;
    uint64_t    sample_seen;
    char        sample[NSAMPLES][4096];
    uint64_t    tab[DISTINCT];
};

static struct shared* sh;
static struct slot* slots;
static struct slot* cur;
static struct pbt the_case;
static char scratch_root[512];
static char scratch_dir[600];
static pid_t main_pid;

const char* pbt_mode = "";
int pbt_thorough;
uint64_t pbt_seed = 1;
const char* pbt_disabled = "";

__attribute__((weak)) void prop_init(void) {}
__attribute__((weak)) int prop_batch = 200;
__attribute__((weak)) int prop_timeout_ms = 10000;
__attribute__((weak)) int prop_jobs_max = 8;
__attribute__((weak)) int prop_flaky_ok = 0;

__attribute__((used)) const char* __asan_default_options(void)
{
    return "exitcode=66:detect_leaks=0:detect_stack_use_after_return=0:"
           "allocator_may_return_null=1:handle_segv=1:abort_on_error=0:"
           "allow_user_segv_handler=1:detect_odr_violation=0:"
           "intercept_strlen=1:replace_str=1:quarantine_size_mb=16:log_to_syslog=0";
}

static uint64_t now_ns(void)
{
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return (uint64_t)ts.tv_sec * 1000000000ull + ts.tv_nsec;
}

static uint64_t splitmix(uint64_t* s)
{
    uint64_t z = (*s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }

static uint64_t rng_next(uint64_t* s)
{
    uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3];
    s[2] ^= t; s[3] = rotl(s[3], 45);
    return r;
}

uint64_t pbt_draw(struct pbt* p, uint64_t bound)
{
    uint64_t v;
    if (p->replay) {
        v = p->pos < p->nin ? p->in[p->pos] : 0;
        if (bound) v %= bound;
    } else {
        v = rng_next(p->rng);
        if (bound) v = (uint64_t)(((unsigned __int128)v * bound) >> 64);
    }
    if (p->pos < MAXCHOICES) {
        cur->choices[p->pos] = v;
        cur->nchoices = p->pos + 1;
    }
    p->pos++;
    return v;
}

int64_t pbt_range(struct pbt* p, int64_t lo, int64_t hi)
{
    return lo + (int64_t)pbt_draw(p, (uint64_t)(hi - lo) + 1);
}

bool pbt_chance(struct pbt* p, unsigned num, unsigned den)
{
    return pbt_draw(p, den) >= den - num;
}

size_t pbt_weighted(struct pbt* p, const unsigned* w, size_t n)
{
    uint64_t sum = 0;
    for (size_t i = 0; i < n; ++i) sum += w[i];
    uint64_t v = pbt_draw(p, sum);
    for (size_t i = 0; i < n; ++i) {
        if (v < w[i]) return i;
        v -= w[i];
    }
    return 0;
}

unsigned pbt_size(struct pbt* p) { return p->size; }

size_t pbt_len(struct pbt* p, size_t max)
{
    size_t m = (max * p->size + 99) / 100;
    if (m < 1) m = 1;
    if (m > max) m = max;
    if (pbt_chance(p, 1, 4)) m = m < 4 ? m : 4;
    return pbt_draw(p, m + 1);
}

uint64_t pbt_u64(struct pbt* p)
{
    switch (pbt_draw(p, 8)) {
    case 0: return pbt_draw(p, 4);
    case 1: return pbt_draw(p, 256);
    case 2: return -(int64_t)pbt_draw(p, 256);
    case 3: { unsigned b = pbt_draw(p, 64); return (1ull << b) - 2 + pbt_draw(p, 5); }
    case 4: { unsigned b = pbt_draw(p, 64); return -((1ull << b) - 2 + pbt_draw(p, 5)); }
    case 5: { unsigned b = pbt_draw(p, 64); return pbt_draw(p, 0) >> b; }
    case 6: { unsigned b = pbt_draw(p, 64); return -(pbt_draw(p, 0) >> b); }
    default: return pbt_draw(p, 0);
    }
}

void pbt_trace(struct pbt* p, const char* fmt, ...)
{
    (void)p;
    va_list ap;
    if (cur->trace_len >= TRACESZ - 2) return;
    va_start(ap, fmt);
    int n = vsnprintf(cur->trace + cur->trace_len, TRACESZ - 2 - cur->trace_len, fmt, ap);
    va_end(ap);
    if (n > 0) {
        cur->trace_len += n;
        if (cur->trace_len > TRACESZ - 2) cur->trace_len = TRACESZ - 2;
    }
    cur->trace[cur->trace_len] = 0;
}

void pbt_nontrivial(struct pbt* p) { (void)p; cur->nontrivial = 1; }

void pbt_label(struct pbt* p, const char* name)
{
    (void)p;
    for (int i = 0; i < MAXLABELS; ++i) {
        if (!sh->label[i].name[0]) {
            pthread_mutex_lock(&sh->lock);
            if (!sh->label[i].name[0])
                snprintf(sh->label[i].name, sizeof(sh->label[i].name), "%s", name);
            pthread_mutex_unlock(&sh->lock);
        }
        if (!strncmp(sh->label[i].name, name, sizeof(sh->label[i].name) - 1)) {
            __atomic_add_fetch(&sh->label[i].n, 1, __ATOMIC_RELAXED);
            return;
        }
    }
}

void pbt_fail(struct pbt* p, const char* tag, const char* fmt, ...)
{
    static pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER;
    (void)p;
    va_list ap;
    pthread_mutex_lock(&m); /* never released: first failure wins */
    snprintf(cur->tag, sizeof(cur->tag), "%s", tag);
    va_start(ap, fmt);
    vsnprintf(cur->msg, sizeof(cur->msg), fmt, ap);
    va_end(ap);
    _exit(EXIT_FAIL);
}

void pbt_inconclusive(struct pbt* p, const char* why)
{
    pbt_label(p, why);
    __atomic_add_fetch(&sh->inconclusive, 1, __ATOMIC_RELAXED);
    _exit(EXIT_INCONC);
}

static bool in_batch;
static void account(void);
void pbt_pass_exit(void)
{
    if (in_batch) account();
    _exit(0);
}

bool pbt_known(const char* id)
{
    size_t n = strlen(id);
    for (const char* s = pbt_disabled; *s; ) {
        const char* e = strchr(s, ',');
        size_t l = e ? (size_t)(e - s) : strlen(s);
        if (l == n && !memcmp(s, id, n)) return true;
        if (!e) break;
        s = e + 1;
    }
    return false;
}

void pbt_heartbeat(void) { cur->start_ns = now_ns(); }

static int rm_cb(const char* path, const struct stat* st, int flag, struct FTW* f)
{
    (void)st; (void)flag;
    if (f->level > 0) {
        if (flag == FTW_DP || flag == FTW_D || flag == FTW_DNR) rmdir(path);
        else unlink(path);
    }
    return 0;
}

static void wipe(const char* dir)
{
    if (strncmp(dir, scratch_root, strlen(scratch_root)) || !scratch_root[0]) return;
    nftw(dir, rm_cb, 16, FTW_DEPTH | FTW_PHYS | FTW_MOUNT);
}

const char* pbt_scratch(void)
{
    if (!scratch_dir[0]) {
        if (!scratch_root[0]) {
            snprintf(scratch_root, sizeof(scratch_root), "/tmp/pbt.XXXXXX");
            if (!mkdtemp(scratch_root)) abort();
        }
        snprintf(scratch_dir, sizeof(scratch_dir), "%s/s%d", scratch_root, (int)(cur - slots));
        mkdir(scratch_dir, 0700);
        wipe(scratch_dir);
    }
    return scratch_dir;
}

static void begin_case(void)
{
    cur->nchoices = 0;
    cur->trace_len = 0;
    cur->trace[0] = 0;
    cur->tag[0] = 0;
    cur->msg[0] = 0;
    cur->nontrivial = 0;
    cur->start_ns = now_ns();
}

static void seed_case(struct pbt* p, uint64_t slot, uint64_t batch, uint64_t idx)
{
    uint64_t s = pbt_seed;
    uint64_t a = splitmix(&s) ^ (slot * 0x9e3779b97f4a7c15ull);
    uint64_t b = splitmix(&a) ^ (batch * 0xd1b54a32d192ed03ull);
    uint64_t c = splitmix(&b) ^ (idx * 0x8cb92ba72f3d8dd7ull);
    memset(p, 0, sizeof(*p));
    for (int i = 0; i < 4; ++i) p->rng[i] = splitmix(&c);
    /* sizes cycle through small and large, growing over the first batches */
    unsigned grow = batch < 8 ? 10 + 12 * batch : 100;
    p->size = 1 + splitmix(&c) % grow;
    if (p->size > 100) p->size = 100;
}

static void run_generated(uint64_t slot, uint64_t batch, uint64_t idx)
{
    struct pbt* p = &the_case;
    begin_case();
    seed_case(p, slot, batch, idx);
    cur->choices[0] = p->size - 1;
    cur->nchoices = 1;
    p->pos = 1;
    prop_case(p);
    cur->start_ns = 0;
}

static void run_choices(const uint64_t* in, uint32_t n)
{
    struct pbt* p = &the_case;
    begin_case();
    memset(p, 0, sizeof(*p));
    p->replay = true;
    p->in = in;
    p->nin = n;
    p->size = 1;
    p->size = 1 + pbt_draw(p, 100);
    prop_case(p);
    cur->start_ns = 0;
}

static void account(void)
{
    __atomic_add_fetch(&sh->evals, 1, __ATOMIC_RELAXED);
    if (!cur->nontrivial) return;
    __atomic_add_fetch(&sh->nontrivial, 1, __ATOMIC_RELAXED);
    uint64_t h = 1469598103934665603ull;
    for (uint32_t i = 0; i < cur->nchoices; ++i) {
        h ^= cur->choices[i] + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
        h *= 1099511628211ull;
    }
    if (!h) h = 1;
    uint32_t k = (h ^ (h >> 32)) & (DISTINCT - 1);
    for (int i = 0; i < 4096; ++i, k = (k + 1) & (DISTINCT - 1)) {
        uint64_t e = __atomic_load_n(&sh->tab[k], __ATOMIC_RELAXED);
        if (e == h) break;
        if (!e) {
            uint64_t z = 0;
            if (__atomic_compare_exchange_n(&sh->tab[k], &z, h, false,
                                            __ATOMIC_RELAXED, __ATOMIC_RELAXED)) {
                uint64_t d = __atomic_add_fetch(&sh->distinct, 1, __ATOMIC_RELAXED);
                if (cur->trace_len && (sh->nsamples < NSAMPLES || !(d & (d - 1)))) {
                    pthread_mutex_lock(&sh->lock);
                    int j = sh->nsamples < NSAMPLES ? sh->nsamples++ : (int)(d % NSAMPLES);
                    snprintf(sh->sample[j], sizeof(sh->sample[j]), "%s", cur->trace);
                    pthread_mutex_unlock(&sh->lock);
                }
                break;
            }
            if (z == h) break;
        }
    }
}

static void child_setup(int k)
{
    cur = &slots[k];
    scratch_dir[0] = 0;
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    setpgid(0, 0);
    struct rlimit rl = { 0, 0 };
    setrlimit(RLIMIT_CORE, &rl);
    char path[600];
    snprintf(path, sizeof(path), "%s/err%d", scratch_root, k);
    int fd = open(path, O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd >= 0) {
        dup2(fd, 2);
        close(fd);
    }
    prop_init();
}

/* outcome of a child */
enum { RES_OK, RES_FAIL, RES_CRASH, RES_HANG, RES_INCONC };

static int classify(int k, int status, bool hung)
{
    struct slot* s = &slots[k];
    if (hung) {
        snprintf(s->tag, sizeof(s->tag), "hang");
        snprintf(s->msg, sizeof(s->msg), "case did not finish");
        return RES_HANG;
    }
    if (WIFEXITED(status) && WEXITSTATUS(status) == 0) return RES_OK;
    if (WIFEXITED(status) && WEXITSTATUS(status) == EXIT_FAIL) return RES_FAIL;
    if (WIFEXITED(status) && WEXITSTATUS(status) == EXIT_INCONC) return RES_INCONC;
    if (WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL) return RES_INCONC;
    char err[3000] = "", path[600];
    snprintf(path, sizeof(path), "%s/err%d", scratch_root, k);
    int fd = open(path, O_RDONLY);
    if (fd >= 0) {
        ssize_t r = read(fd, err, sizeof(err) - 1);
        err[r > 0 ? r : 0] = 0;
        close(fd);
    }
    if (WIFEXITED(status) && WEXITSTATUS(status) == EXIT_ASAN) {
        const char* e = strstr(err, "AddressSanitizer: ");
        char kind[40] = "";
        if (e) sscanf(e + 18, "%39s", kind);
        snprintf(s->tag, sizeof(s->tag), "asan:%s", kind);
    } else if (WIFSIGNALED(status)) {
        snprintf(s->tag, sizeof(s->tag), "signal:%d", WTERMSIG(status));
    } else {
        snprintf(s->tag, sizeof(s->tag), "exit:%d", WEXITSTATUS(status));
    }
    snprintf(s->msg, sizeof(s->msg), "process died (%s): %s", s->tag, err);
    return RES_CRASH;
}

static void slot_dir_wipe(int k)
{
    char d[600];
    snprintf(d, sizeof(d), "%s/s%d", scratch_root, k);
    wipe(d);
}

static int run_child_case(int k, const uint64_t* in, uint32_t n, int timeout_ms)
{
    slot_dir_wipe(k);
    pid_t pid = fork();
    if (pid < 0) return RES_INCONC;
    if (!pid) {
        child_setup(k);
        run_choices(in, n);
        _exit(0);
    }
    uint64_t t0 = now_ns();
    int st = 0;
    bool hung = false;
    for (unsigned us = 50;; us = us < 2000 ? us * 2 : us) {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) break;
        if (now_ns() - t0 > (uint64_t)timeout_ms * 1000000ull) {
            kill(-pid, SIGKILL);
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            hung = true;
            break;
        }
        usleep(us);
    }
    kill(-pid, SIGKILL);
    return classify(k, st, hung);
}

static int run_child_batch(int k, uint64_t slot, uint64_t batch, uint64_t upto, int timeout_ms)
{
    slot_dir_wipe(k);
    pid_t pid = fork();
    if (pid < 0) return RES_INCONC;
    if (!pid) {
        child_setup(k);
        for (uint64_t i = 0; i <= upto; ++i) run_generated(slot, batch, i);
        _exit(0);
    }
    uint64_t t0 = now_ns();
    int st = 0;
    bool hung = false;
    for (;;) {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) break;
        if (now_ns() - t0 > (uint64_t)timeout_ms * 1000000ull) {
            kill(-pid, SIGKILL);
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            hung = true;
            break;
        }
        usleep(500);
    }
    kill(-pid, SIGKILL);
    return classify(k, st, hung);
}

static bool same_tag(const char* tag, int r, int k)
{
    return (r == RES_FAIL || r == RES_CRASH || r == RES_HANG) && !strcmp(tag, slots[k].tag);
}

/* does this candidate fail with the tag? (tries > 1 for schedule-dependent failures) */
static bool fails(int k, const char* tag, const uint64_t* c, uint32_t n, int tries, int tmo)
{
    for (int i = 0; i < tries; ++i) {
        int r = run_child_case(k, c, n, tmo);
        if (same_tag(tag, r, k)) return true;
    }
    return false;
}

static uint32_t shrink(int k, const char* tag, uint64_t* c, uint32_t n, int tries, int tmo,
                       uint64_t deadline)
{
    uint64_t* t = malloc(MAXCHOICES * sizeof(*t));
    bool progress = true;
    while (progress && now_ns() < deadline) {
        progress = false;
        for (uint32_t cut = n / 2; cut >= 1 && now_ns() < deadline; ) {   /* truncate */
            if (cut < n && fails(k, tag, c, n - cut, tries, tmo)) {
                n -= cut;
                progress = true;
                if (cut > n / 2) cut = n / 2;
            } else {
                cut /= 2;
            }
        }
        for (uint32_t len = 64; len >= 1; len = len / 2) {              /* delete */
            for (int64_t at = (int64_t)n - len; at >= 1 && now_ns() < deadline; ) {
                memcpy(t, c, at * sizeof(*c));
                memcpy(t + at, c + at + len, (n - at - len) * sizeof(*c));
                if (fails(k, tag, t, n - len, tries, tmo)) {
                    n -= len;
                    memcpy(c, t, n * sizeof(*c));
                    progress = true;
                    at -= len;
                    if (at + len > n) at = (int64_t)n - len;
                } else {
                    at -= len > 4 ? len / 2 : 1;
                }
            }
        }
        for (uint32_t len = 16; len >= 1; len /= 4) {                   /* zero */
            for (uint32_t at = 0; at + len <= n && now_ns() < deadline; at += len) {
                bool nz = false;
                for (uint32_t i = at; i < at + len; ++i) nz |= c[i] != 0;
                if (!nz) continue;
                memcpy(t, c, n * sizeof(*c));
                memset(t + at, 0, len * sizeof(*c));
                if (fails(k, tag, t, n, tries, tmo)) {
                    memcpy(c, t, n * sizeof(*c));
                    progress = true;
                }
            }
        }
        for (uint32_t at = 0; at < n && now_ns() < deadline; ++at) {    /* lower */
            uint64_t lo = 0, hi = c[at];
            int guard = 0;
            while (lo < hi && now_ns() < deadline && guard++ < 12) {
                uint64_t mid = lo + (hi - lo) / 2;
                memcpy(t, c, n * sizeof(*c));
                t[at] = mid;
                if (fails(k, tag, t, n, tries, tmo)) {
                    hi = mid;
                    c[at] = mid;
                    progress = true;
                } else {
                    lo = mid + 1;
                }
            }
        }
    }
    free(t);
    return n;
}

static void json_str(FILE* f, const char* s)
{
    fputc('"', f);
    for (; *s; ++s) {
        unsigned char ch = *s;
        if (ch == '"' || ch == '\\') fprintf(f, "\\%c", ch);
        else if (ch == '\n') fputs("\\n", f);
        else if (ch < 32 || ch > 126) fprintf(f, "\\u%04x", ch);
        else fputc(ch, f);
    }
    fputc('"', f);
}

static void write_replay(const char* path, const char* kind, uint64_t slot, uint64_t batch,
                         uint64_t idx, const uint64_t* c, uint32_t n, const char* tag,
                         const char* msg, const char* trace, const char* note)
{
    FILE* f = fopen(path, "w");
    if (!f) return;
    fprintf(f, "{\"mode\": ");
    json_str(f, pbt_mode);
    fprintf(f, ", \"kind\": \"%s\", \"seed\": %llu, \"slot\": %llu, \"batch\": %llu, \"idx\": %llu,\n \"tag\": ",
            kind, (unsigned long long)pbt_seed, (unsigned long long)slot,
            (unsigned long long)batch, (unsigned long long)idx);
    json_str(f, tag);
    fprintf(f, ",\n \"message\": ");
    json_str(f, msg);
    fprintf(f, ",\n \"note\": ");
    json_str(f, note);
    fprintf(f, ",\n \"trace\": ");
    json_str(f, trace);
    fprintf(f, ",\n \"choices\": [");
    for (uint32_t i = 0; i < n; ++i) fprintf(f, "%s%llu", i ? "," : "", (unsigned long long)c[i]);
    fprintf(f, "]}\n");
    fclose(f);
}

static int handle_failure(int k, uint64_t slot, uint64_t batch, uint64_t idx,
                          const char* replay_path, double shrink_s)
{
    struct slot* s = &slots[k];
    uint32_t n = s->nchoices < MAXCHOICES ? s->nchoices : MAXCHOICES;
    uint64_t* c = malloc(MAXCHOICES * sizeof(*c));
    memcpy(c, s->choices, n * sizeof(*c));
    char tag[64], *msg = strdup(s->msg), *trace = strdup(s->trace);
    snprintf(tag, sizeof(tag), "%s", s->tag);
    bool hang = !strcmp(tag, "hang");
    int tmo = hang ? prop_timeout_ms * 3 : prop_timeout_ms;
    fprintf(stderr, "[pbt] failure tag=%s slot=%llu batch=%llu idx=%llu choices=%u\n[pbt] %s\n",
            tag, (unsigned long long)slot, (unsigned long long)batch, (unsigned long long)idx, n, msg);
    int k2 = MAXSLOTS - 1;      /* private slot for re-runs */
    int rep = 0;
    for (int i = 0; i < (hang ? 2 : 3); ++i)
        rep += fails(k2, tag, c, n, 1, tmo);
    if (rep >= (hang ? 2 : 3) || (rep && prop_flaky_ok && !hang)) {
        int tries = rep == 3 || hang ? 1 : 4;
        if (!hang)
            n = shrink(k2, tag, c, n, tries, tmo, now_ns() + (uint64_t)(shrink_s * 1e9));
        bool again = fails(k2, tag, c, n, 5, tmo);
        struct slot* t = again ? &slots[k2] : s;
        write_replay(replay_path, "case", slot, batch, idx, c, n, tag, t->msg, t->trace,
                     rep == 3 || hang ? "replays deterministically" : "schedule dependent");
        fprintf(stderr, "[pbt] shrunk to %u choices: %s\n%s\n", n, t->msg, t->trace);
        return 1;
    }
    if (!hang) {                 /* state carried over from earlier cases of the batch? */
        char note[64];
        int b = 0;
        for (int i = 0; i < 3; ++i) {
            int r = run_child_batch(k2, slot, batch, idx, prop_timeout_ms * 6);
            b += same_tag(tag, r, k2) && slots[k2].idx <= idx;
        }
        if (b == 3 || (prop_flaky_ok && (b || rep))) {
            snprintf(note, sizeof(note), "batch replay %d/3", b);
            write_replay(replay_path, "batch", slot, batch, idx, c, n, tag, msg, trace, note);
            fprintf(stderr, "[pbt] reproduces as a batch (%d/3)\n%s\n", b, trace);
            return 1;
        }
    }
    if (prop_flaky_ok && !hang) {
        /* the recorded history itself contradicts the property */
        write_replay(replay_path, "case", slot, batch, idx, c, n, tag, msg, trace,
                     "recorded history; not reproduced within the retry budget");
        fprintf(stderr, "[pbt] schedule-dependent; reporting the recorded history\n%s\n", trace);
        return 1;
    }
    fprintf(stderr, "[pbt] not reproducible (%d): inconclusive\n", rep);
    sh->inconclusive++;
    free(c);
    return 0;
}

/* ---- replay file parsing (our own format only) ---- */
static char* slurp(const char* path)
{
    FILE* f = fopen(path, "r");
    if (!f) return NULL;
    char* b = NULL;
    size_t n = 0;
    FILE* o = open_memstream(&b, &n);
    int ch;
    while ((ch = fgetc(f)) != EOF) fputc(ch, o);
    fclose(f);
    fclose(o);
    return b;
}

static uint64_t jnum(const char* b, const char* key)
{
    const char* s = strstr(b, key);
    return s ? strtoull(s + strlen(key), NULL, 10) : 0;
}

static int do_replay(const char* path)
{
    char* b = slurp(path);
    if (!b) { fprintf(stderr, "cannot read %s\n", path); return 2; }
    bool batch = strstr(b, "\"kind\": \"batch\"") != NULL;
    pbt_seed = jnum(b, "\"seed\": ");
    int failed = 0;
    if (batch) {
        for (int i = 0; i < 3 && !failed; ++i) {
            int r = run_child_batch(0, jnum(b, "\"slot\": "), jnum(b, "\"batch\": "),
                                    jnum(b, "\"idx\": "), prop_timeout_ms * 6);
            failed = r == RES_FAIL || r == RES_CRASH || r == RES_HANG;
        }
    } else {
        uint64_t* c = calloc(MAXCHOICES, sizeof(*c));
        uint32_t n = 0;
        char* s = strstr(b, "\"choices\": [");
        if (!s) return 2;
        s += 12;
        while (*s && *s != ']' && n < MAXCHOICES) {
            c[n++] = strtoull(s, &s, 10);
            if (*s == ',') ++s;
        }
        int tries = prop_flaky_ok ? 50 : 3;
        for (int i = 0; i < tries && !failed; ++i) {
            int r = run_child_case(0, c, n, prop_timeout_ms * 3);
            failed = r == RES_FAIL || r == RES_CRASH || r == RES_HANG;
        }
    }
    printf("%s\ntag: %s\n%s\n%s\n", failed ? "FAILED" : "passed", slots[0].tag, slots[0].msg, slots[0].trace);
    return failed ? 1 : 0;
}

int main(int argc, char* argv[])
{
    double secs = 10, shrink_s = 15;
    uint64_t max_cases = 0;
    const char *out = NULL, *replay = NULL, *replay_out = "replay.json";
    int jobs = 8;
    for (int i = 1; i + 1 < argc; i += 2) {
        if (!strcmp(argv[i], "--time")) secs = atof(argv[i + 1]);
        else if (!strcmp(argv[i], "--shrink")) shrink_s = atof(argv[i + 1]);
        else if (!strcmp(argv[i], "--cases")) max_cases = strtoull(argv[i + 1], NULL, 10);
        else if (!strcmp(argv[i], "--seed")) pbt_seed = strtoull(argv[i + 1], NULL, 10);
        else if (!strcmp(argv[i], "--out")) out = argv[i + 1];
        else if (!strcmp(argv[i], "--mode")) pbt_mode = argv[i + 1];
        else if (!strcmp(argv[i], "--replay")) replay = argv[i + 1];
        else if (!strcmp(argv[i], "--replay-out")) replay_out = argv[i + 1];
        else if (!strcmp(argv[i], "--scratch")) snprintf(scratch_root, sizeof(scratch_root), "%s", argv[i + 1]);
        else if (!strcmp(argv[i], "--jobs")) jobs = atoi(argv[i + 1]);
        else if (!strcmp(argv[i], "--known")) pbt_disabled = argv[i + 1];
        else if (!strcmp(argv[i], "--tier")) pbt_thorough = !strcmp(argv[i + 1], "thorough");
    }
    main_pid = getpid();
    if (!scratch_root[0]) {
        snprintf(scratch_root, sizeof(scratch_root), "/tmp/pbt.XXXXXX");
        if (!mkdtemp(scratch_root)) return 2;
    }
    sh = mmap(NULL, sizeof(*sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    slots = mmap(NULL, sizeof(*slots) * MAXSLOTS, PROT_READ | PROT_WRITE,
                 MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (sh == MAP_FAILED || slots == MAP_FAILED) return 2;
    pthread_mutexattr_t a;
    pthread_mutexattr_init(&a);
    pthread_mutexattr_setpshared(&a, PTHREAD_PROCESS_SHARED);
    pthread_mutexattr_setrobust(&a, PTHREAD_MUTEX_ROBUST);
    pthread_mutex_init(&sh->lock, &a);
    cur = &slots[0];

    if (replay) {
        int r = do_replay(replay);
        wipe(scratch_root);
        rmdir(scratch_root);
        return r;
    }

    if (jobs > prop_jobs_max) jobs = prop_jobs_max;
    if (jobs > MAXSLOTS - 2) jobs = MAXSLOTS - 2;
    pid_t pid[MAXSLOTS] = { 0 };
    uint64_t batchno[MAXSLOTS] = { 0 };
    uint64_t t0 = now_ns(), end = t0 + (uint64_t)(secs * 1e9);
    int failed = 0;
    bool stop = false;
    for (;;) {
        int live = 0;
        for (int k = 0; k < jobs; ++k) {
            if (!pid[k]) {
                if (stop || failed || now_ns() >= end || (max_cases && sh->evals >= max_cases)) continue;
                slot_dir_wipe(k);
                slots[k].start_ns = 0;
                slots[k].batch = batchno[k];
                slots[k].idx = 0;
                pid_t q = fork();
                if (q < 0) { usleep(10000); continue; }
                if (!q) {
                    child_setup(k);
                    in_batch = true;
                    for (uint32_t i = 0; i < (uint32_t)prop_batch; ++i) {
                        cur->idx = i;
                        run_generated(k, batchno[k], i);
                        account();
                        if (now_ns() >= end) break;
                    }
                    _exit(0);
                }
                pid[k] = q;
                batchno[k]++;
            }
            int st;
            pid_t r = waitpid(pid[k], &st, WNOHANG);
            bool hung = false;
            if (r == 0) {
                uint64_t s = slots[k].start_ns, t = now_ns();
                if (s && t > s && t - s > (uint64_t)prop_timeout_ms * 1000000ull) {
                    kill(-pid[k], SIGKILL);
                    kill(pid[k], SIGKILL);
                    waitpid(pid[k], &st, 0);
                    hung = true;
                    r = pid[k];
                }
            }
            if (r == pid[k]) {
                kill(-pid[k], SIGKILL);
                pid[k] = 0;
                int o = classify(k, st, hung);
                if (o == RES_FAIL || o == RES_CRASH || o == RES_HANG) {
                    /* stop the others first: re-runs get a quiet machine */
                    for (int j = 0; j < jobs; ++j) {
                        if (pid[j]) {
                            kill(-pid[j], SIGKILL);
                            kill(pid[j], SIGKILL);
                            waitpid(pid[j], &st, 0);
                            pid[j] = 0;
                        }
                    }
                    failed = handle_failure(k, k, batchno[k] - 1, slots[k].idx, replay_out, shrink_s);
                } else if (o == RES_INCONC && !(WIFEXITED(st))) {
                    sh->inconclusive++;
                }
            } else {
                live++;
            }
        }
        if (!live && (failed || now_ns() >= end || (max_cases && sh->evals >= max_cases))) break;
        usleep(1000);
    }
    double wall = (now_ns() - t0) / 1e9;
    FILE* f = out ? fopen(out, "w") : stdout;
    if (!f) return 2;
    fprintf(f, "{\"evaluations\": %llu, \"nontrivial\": %llu, \"distinct_nontrivial\": %llu, "
               "\"inconclusive\": %llu, \"failed\": %d, \"wall_s\": %.2f,\n \"rule\": ",
            (unsigned long long)sh->evals, (unsigned long long)sh->nontrivial,
            (unsigned long long)sh->distinct, (unsigned long long)sh->inconclusive, failed, wall);
    json_str(f, getenv("PBT_RULE") ? getenv("PBT_RULE") : prop_rule);
    fprintf(f, ",\n \"labels\": {");
    for (int i = 0; i < MAXLABELS && sh->label[i].name[0]; ++i) {
        fprintf(f, "%s", i ? ", " : "");
        json_str(f, sh->label[i].name);
        fprintf(f, ": %llu", (unsigned long long)sh->label[i].n);
    }
    fprintf(f, "},\n \"samples\": [");
    for (int i = 0; i < sh->nsamples; ++i) {
        fprintf(f, "%s", i ? ",\n  " : "");
        json_str(f, sh->sample[i]);
    }
    fprintf(f, "]}\n");
    if (out) fclose(f);
    wipe(scratch_root);
    rmdir(scratch_root);
    return failed ? 1 : 0;
}
