#define _GNU_SOURCE
#include <errno.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include "h.h"

#ifdef H_SAN
#elif defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
#define H_SAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer) || __has_feature(memory_sanitizer)
#define H_SAN 1
#endif
#endif

#if defined(__has_feature)
#if __has_feature(undefined_behavior_sanitizer)
#define H_DEATH 1
#endif
#endif
/* the reference and OpenSSL are not instrumented: no MSan interceptor checks while they run */
#define REF_ON() ((void)0)
#define REF_OFF() ((void)0)
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#undef REF_ON
#undef REF_OFF
#define REF_ON() __msan_scoped_disable_interceptor_checks()
#define REF_OFF() __msan_scoped_enable_interceptor_checks()
#endif
#endif
#ifdef H_SAN
#define H_DEATH 1
#endif

uint64_t h_seed = 1;
int h_thorough = 0;
double h_scale = 1;
const char *h_tag = "?";
const char *h_mode = "";

/* ---------------------------------------------------------------- rng: xoshiro256** */
static uint64_t splitmix(uint64_t *x) {
    uint64_t z = (*x += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
void rng_init(rng *r, uint64_t seed, uint64_t a, uint64_t b) {
    uint64_t x = seed * 0x2545f4914f6cdd1dULL + 0x1234567;
    uint64_t y = splitmix(&x) ^ (a * 0xd6e8feb86659fd93ULL);
    uint64_t z = splitmix(&y) ^ (b * 0xa0761d6478bd642fULL);
    for (int i = 0; i < 4; i++) r->s[i] = splitmix(&z);
}
static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
uint64_t rnd(rng *r) {
    uint64_t *s = r->s, res = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3];
    s[2] ^= t;
    s[3] = rotl(s[3], 45);
    return res;
}
void rnd_fill(rng *r, void *p, size_t n) {
    uint8_t *o = p;
    while (n) {
        uint64_t v = rnd(r);
        size_t m = n < 8 ? n : 8;
        memcpy(o, &v, m);
        o += m;
        n -= m;
    }
}
uint64_t hash64(const void *p, size_t n, uint64_t h) {
    const uint8_t *b = p;
    h ^= 0xcbf29ce484222325ULL;
    for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 0x100000001b3ULL;
    return h ^ (h >> 29);
}

/* ---------------------------------------------------------------- parameter sets */
const hset h_sets[] = {
#define ENT(i, s) {&ref_sets[i], &ts_ps_##s##_simple},
#if TS_SUPPORT_SHA2
    ENT(1, sha2_128f)
#if TS_SUPPORT_S
    ENT(0, sha2_128s)
#endif
#if TS_SUPPORT_L3 || TS_SUPPORT_L5
    ENT(3, sha2_192f)
#if TS_SUPPORT_S
    ENT(2, sha2_192s)
#endif
#endif
#if TS_SUPPORT_L5
    ENT(5, sha2_256f)
#if TS_SUPPORT_S
    ENT(4, sha2_256s)
#endif
#endif
#endif
#if TS_SUPPORT_SHAKE
    ENT(7, shake_128f)
#if TS_SUPPORT_S
    ENT(6, shake_128s)
#endif
#if TS_SUPPORT_L3 || TS_SUPPORT_L5
    ENT(9, shake_192f)
#if TS_SUPPORT_S
    ENT(8, shake_192s)
#endif
#endif
#if TS_SUPPORT_L5
    ENT(11, shake_256f)
#if TS_SUPPORT_S
    ENT(10, shake_256s)
#endif
#endif
#endif
};
const int h_nsets = sizeof h_sets / sizeof *h_sets;
const hset *h_set(const char *name) {
    for (int i = 0; i < h_nsets; i++)
        if (!strcmp(h_sets[i].r->name, name)) return &h_sets[i];
    return 0;
}

/* ---------------------------------------------------------------- shared state of the workers */
#define MAXSTAT 64
#define DSIZE (1u << 20)
#define MAXW 64
static struct shared {
    _Atomic uint64_t next;
    _Atomic int viols, samples;
    _Atomic uint64_t ndistinct, done, slowest;
    struct { char name[48]; _Atomic uint64_t v; } stat[MAXSTAT];
    _Atomic int nstat, statlock;
    _Atomic uint64_t cur[MAXW]; /* case a worker is in, +1 */
    _Atomic uint64_t set[DSIZE];
} *sh;
static int me;

uint64_t h_cur_case(void) { return sh->cur[me] - 1; }
int h_viols(void) { return sh->viols; }

static void emit(const char *s, size_t n) {
    while (n) {
        ssize_t k = write(1, s, n);
        if (k < 0) { if (errno == EINTR) continue; _exit(3); }
        s += k;
        n -= (size_t)k;
    }
}
static void emitf(const char *kind, const char *key, const char *fmt, va_list ap) {
    char b[3500];
    int n = snprintf(b, sizeof b, "%s\t%s\t%lld\t", kind, key, (long long)h_cur_case());
    int m = vsnprintf(b + n, sizeof b - n - 2, fmt, ap);
    if (m > (int)sizeof b - n - 3) m = sizeof b - n - 3;
    for (int i = n; i < n + m; i++) if (b[i] == '\n' || b[i] == '\t') b[i] = ' ';
    b[n + m] = '\n';
    emit(b, n + m + 1);
}
void viol(const char *key, const char *fmt, ...) {
    int k = atomic_fetch_add(&sh->viols, 1);
    if (k >= 12) return;
    va_list ap;
    va_start(ap, fmt);
    emitf("VIOL", key, fmt, ap);
    va_end(ap);
}
void sample(const char *fmt, ...) {
    if (atomic_fetch_add(&sh->samples, 1) >= 24) return;
    va_list ap;
    va_start(ap, fmt);
    emitf("SAMPLE", "-", fmt, ap);
    va_end(ap);
}
void stat_add(const char *name, uint64_t v) {
    int i;
    for (i = 0; i < sh->nstat; i++)
        if (!strncmp(sh->stat[i].name, name, 47)) { sh->stat[i].v += v; return; }
    while (atomic_exchange(&sh->statlock, 1)) usleep(50);
    for (i = 0; i < sh->nstat; i++)
        if (!strncmp(sh->stat[i].name, name, 47)) break;
    if (i == sh->nstat && i < MAXSTAT) {
        strncpy(sh->stat[i].name, name, 47);
        sh->nstat++;
    }
    atomic_store(&sh->statlock, 0);
    if (i < MAXSTAT) sh->stat[i].v += v;
}
void distinct(uint64_t h) {
    if (!h) h = 1;
    for (unsigned i = (unsigned)(h >> 20) & (DSIZE - 1), c = 0; c < 4096; i = (i + 1) & (DSIZE - 1), c++) {
        uint64_t e = sh->set[i];
        if (e == h) return;
        if (!e) {
            if (atomic_compare_exchange_strong(&sh->set[i], &e, h)) { sh->ndistinct++; return; }
            if (e == h) return;
        }
    }
}
const char *hex(const void *p, size_t n) {
    static __thread char b[8][300];
    static __thread int w;
    char *o = b[w = (w + 1) & 7];
    const uint8_t *q = p;
    size_t i;
    for (i = 0; i < n && i < 140; i++) sprintf(o + 2 * i, "%02x", q[i]);
    o[2 * i] = 0;
    if (i < n) strcat(o, "..");
    return o;
}

/* ---------------------------------------------------------------- watchdogs */
static void say(const char *key, const char *what) {
    char b[300];
    if (atomic_fetch_add(&sh->viols, 1) >= 12) return;
    int n = snprintf(b, sizeof b, "VIOL\t%s\t%lld\t%s (config %s)\n", key, (long long)h_cur_case(), what, h_tag);
    emit(b, (size_t)n);
}
static void on_prof(int s) {
    (void)s;
    say("hang", "the case used up its CPU budget: the library does not return");
    _exit(1);
}
static void on_fatal(int s) {
    char w[100];
    snprintf(w, sizeof w, "fatal signal %d (%s) during the case", s,
             s == SIGSEGV ? "SIGSEGV" : s == SIGBUS ? "SIGBUS" : s == SIGFPE ? "SIGFPE" :
             s == SIGILL ? "SIGILL" : s == SIGABRT ? "SIGABRT" : "?");
    say("crash", w);
    _exit(1);
}
double h_case_cpu_limit __attribute__((weak)) = 240;
int h_default_jobs __attribute__((weak)) = 0;
void __attribute__((weak)) h_final(void) {}
void h_case_rearm(void) {
    struct itimerval it = {{0, 0}, {0, 0}};
    it.it_value.tv_sec = (long)(h_thorough ? 4 * h_case_cpu_limit : h_case_cpu_limit);
    it.it_value.tv_usec = 1;
    setitimer(ITIMER_PROF, &it, 0);
}
static void handlers(void) {
    static uint8_t alt[65536];
    stack_t ss = {.ss_sp = alt, .ss_size = sizeof alt};
    sigaltstack(&ss, 0);
    struct sigaction a;
    memset(&a, 0, sizeof a);
    a.sa_flags = SA_ONSTACK;
    a.sa_handler = on_prof;
    sigaction(SIGPROF, &a, 0);
#ifndef H_SAN
    a.sa_handler = on_fatal;
    int sg[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT};
    for (unsigned i = 0; i < sizeof sg / sizeof *sg; i++) sigaction(sg[i], &a, 0);
#else
    (void)on_fatal;
#endif
}

#ifdef H_DEATH
void __sanitizer_set_death_callback(void (*cb)(void));
static void on_death(void) { say("sanitizer", "sanitizer report (see the log) in this case"); }
#endif

static void run_one(uint64_t id) {
    rng r;
    sh->cur[me] = id + 1;
    rng_init(&r, h_seed, id, 0);
    h_case_rearm();
    struct timespec a, b;
    clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &a);
    h_case(id, &r);
    clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &b);
    uint64_t ms = (uint64_t)((b.tv_sec - a.tv_sec) * 1000 + (b.tv_nsec - a.tv_nsec) / 1000000), o = sh->slowest;
    while (ms > o && !atomic_compare_exchange_weak(&sh->slowest, &o, ms)) ;
    sh->done++;
}

static void worker(int w, uint64_t n, int64_t only) {
    me = w;
    handlers();
#ifdef H_DEATH
    __sanitizer_set_death_callback(on_death);
#endif
    if (only >= 0) {
        run_one((uint64_t)only);
    } else
        for (;;) {
            uint64_t id = atomic_fetch_add(&sh->next, 1);
            if (id >= n || sh->viols >= 12) break;
            run_one(id);
        }
    h_final();
    sh->cur[me] = 0;
}

int main(int argc, char **argv) {
    int jobs = 0;
    int64_t only = -1;
    for (int i = 1; i < argc; i++) {
#define ARG(s) (!strcmp(argv[i], s) && i + 1 < argc)
        if (ARG("--seed")) h_seed = strtoull(argv[++i], 0, 10);
        else if (ARG("--tier")) h_thorough = !strcmp(argv[++i], "thorough");
        else if (ARG("--jobs")) jobs = atoi(argv[++i]);
        else if (ARG("--only")) only = atoll(argv[++i]);
        else if (ARG("--scale")) h_scale = atof(argv[++i]);
        else if (ARG("--tag")) h_tag = argv[++i];
        else if (ARG("--mode")) h_mode = argv[++i];
        else { fprintf(stderr, "bad argument %s\n", argv[i]); return 3; }
    }
    if (!jobs) jobs = h_default_jobs;
    if (!jobs) jobs = (int)sysconf(_SC_NPROCESSORS_ONLN);
    if (jobs > MAXW) jobs = MAXW;
    sh = mmap(0, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (sh == MAP_FAILED) return 3;
    handlers();
    uint64_t n = h_ncases();
    if ((uint64_t)jobs > n) jobs = n ? (int)n : 1;
    if (only >= 0) jobs = 1;
    int bad = 0;
    if (jobs == 1) {
        worker(0, n, only);
    } else {
        pid_t pid[MAXW];
        fflush(stdout);
        for (int w = 0; w < jobs; w++) {
            pid[w] = fork();
            if (pid[w] < 0) return 3;
            if (!pid[w]) {
                worker(w, n, -1);
                fflush(stdout);
                _exit(0);
            }
        }
        for (int w = 0; w < jobs; w++) {
            int st;
            while (waitpid(pid[w], &st, 0) < 0 && errno == EINTR) {}
            if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
                bad = 1;
                char b[200];
                int k = snprintf(b, sizeof b, "DIED\t%s %d\t%lld\tworker\n",
                                 WIFSIGNALED(st) ? "signal" : "exit",
                                 WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st),
                                 (long long)sh->cur[w] - 1);
                emit(b, (size_t)k);
            }
        }
    }
    for (int i = 0; i < sh->nstat; i++) printf("STAT\t%s\t%llu\n", sh->stat[i].name, (unsigned long long)sh->stat[i].v);
    printf("SLOWEST\t%llu\n", (unsigned long long)sh->slowest);
    printf("DISTINCT\t%llu\nDONE\t%llu\t%llu\n", (unsigned long long)sh->ndistinct,
           (unsigned long long)sh->done, (unsigned long long)n);
    fflush(stdout);
    return sh->viols || bad;
}

/* ---------------------------------------------------------------- random function for the library */
__thread h_rng_state h_rs;
void h_rng_set(const uint8_t *data, size_t len) {
    memset(&h_rs, 0, sizeof h_rs);
    h_rs.data = data;
    h_rs.len = len;
}
int h_rng_cb(unsigned char *p, size_t n) {
    h_rng_state *s = &h_rs;
    if (s->calls < 8) s->req[s->calls] = n;
    s->calls++;
    if (s->fail_at && s->calls == s->fail_at) {
        size_t m = s->scribble == 0 ? 0 : s->scribble == 1 ? n / 2 : n;
        memset(p, 0xdb, m);
        return 0;
    }
    if (n > s->len - s->used) {
        s->overrun = 1;
        memset(p, 0xEE, n);
        return 1;
    }
    memcpy(p, s->data + s->used, n);
    s->used += n;
    return 1;
}

/* ---------------------------------------------------------------- guarded buffers */
#define GB 64
/* no two buffers, and no two places, share their canary bytes: what spills over may be another buffer's canary */
#define CANARY(g, i) ((uint8_t)((g).salt + (i) * 29u + ((i) >> 3)))
gbuf gb_newa(size_t n, unsigned off) {
    gbuf g;
    static _Thread_local uint8_t salt = 0xC5;
    g.salt = salt += 0x4d;
    g.n = n;
    g.off = off & 15;
#ifdef H_SAN
    g.base = malloc(n + g.off + (n + g.off ? 0 : 1));
    if (!g.base) abort();
    g.p = g.base + g.off;
#else
    g.base = malloc(n + 2 * GB + 16);
    if (!g.base) abort();
    g.p = g.base + GB + g.off;
    for (unsigned i = 0; i < GB + g.off; i++) g.base[i] = CANARY(g, i);
    for (unsigned i = 0; i < GB; i++) g.p[n + i] = CANARY(g, i + 0x55);
#endif
    return g;
}
gbuf gb_new(size_t n) { return gb_newa(n, 0); }
int gb_ok(const gbuf *g) {
#ifdef H_SAN
    (void)g;
    return 1;
#else
    for (unsigned i = 0; i < GB + g->off; i++)
        if (g->base[i] != CANARY(*g, i)) return 0;
    for (unsigned i = 0; i < GB; i++)
        if (g->p[g->n + i] != CANARY(*g, i + 0x55)) return 0;
    return 1;
#endif
}
void gb_free(gbuf *g) { free(g->base); g->base = 0; }

size_t h_msglen(rng *r) {
    static const unsigned edge[] = {0, 1, 55, 56, 63, 64, 65, 111, 112, 119, 120, 127, 128, 129, 135, 136, 137,
                                    255, 256, 257, 271, 272, 273, 1000, 4096};
    switch (rnd_below(r, 6)) {
    case 0: return 0;
    case 1: return edge[rnd_below(r, sizeof edge / sizeof *edge)];
    case 2: return rnd_below(r, 8);
    case 3: return rnd_below(r, 300);
    case 4: return rnd_below(r, 2000);
    default: { /* so that prefix + message ends near a block boundary */
        static const unsigned blk[] = {64, 128, 136};
        size_t b = blk[rnd_below(r, 3)] * rnd_in(r, 1, 12);
        size_t off = rnd_below(r, 120);
        return b > off ? b - off : b;
    }
    }
}

unsigned h_chunk(rng *r, int style, unsigned n) {
    switch (style) {
    case 0: return 1;
    case 1: return n;
    case 2: return (unsigned)rnd_in(r, 1, 2 * n + 1);
    case 3: return (unsigned)rnd_in(r, 0, 3);
    case 4: return (unsigned)rnd_in(r, n - 1, n + 1);
    case 5: return (unsigned)rnd_in(r, 1, 5000);
    case 6: return rnd_below(r, 4) ? (unsigned)rnd_in(r, 0, n) : (unsigned)rnd_in(r, 0, 12 * n);
    default: return (unsigned)(n * rnd_in(r, 1, 40));
    }
}

/* ---------------------------------------------------------------- key material, messages, fixtures */
int h_is_s(const ref_ps *ps) { return ps->hm > 4; }

void h_seed_material(rng *r, const ref_ps *ps, uint8_t *seed) {
    unsigned n = ps->n;
    rnd_fill(r, seed, 96);
    switch (rnd_below(r, 16)) {
    case 0: memset(seed, 0, 96); break;
    case 1: memset(seed, 0xff, 96); break;
    case 2: memset(seed, (int)rnd(r), 96); break;
    case 3: for (int i = 0; i < 96; i++) seed[i] = (uint8_t)i; break;
    case 4: memcpy(seed + n, seed, n); memcpy(seed + 2 * n, seed, n); break;
    case 5: memset(seed, 0, n); break;
    case 6: memset(seed + n, 0xff, n); break;
    case 7: memset(seed + 2 * n, (rnd(r) & 1) ? 0 : 0xff, n); break;
    case 8: memset(seed, 0, 96); seed[rnd_below(r, 3 * n)] = (uint8_t)(1u << rnd_below(r, 8)); break;
    case 9: seed[rnd_below(r, 3) * n] = 0; seed[n - 1] = 0; seed[3 * n - 1] = 0; break;
    case 10: for (unsigned i = 0; i < 3 * n; i++) if (rnd(r) & 1) seed[i] = (rnd(r) & 1) ? 0x80 : 0; break;
    }
}
void h_opt_fill(rng *r, const uint8_t *sk, unsigned n, uint8_t *opt) {
    rnd_fill(r, opt, 32);
    switch (rnd_below(r, 16)) {
    case 0: memset(opt, 0, 32); break;
    case 1: memset(opt, 0xff, 32); break;
    case 2: memset(opt, 0, rnd_below(r, n)); break;
    case 3: memset(opt, 0, 32); opt[rnd_below(r, n)] = (uint8_t)(1u << rnd_below(r, 8)); break;
    case 4: memcpy(opt, sk + rnd_below(r, 4) * n, n); break;
    case 5: opt[0] = 0; break;
    }
}
void h_msg_fill(rng *r, uint8_t *m, size_t n) {
    rnd_fill(r, m, n);
    switch (rnd_below(r, 8)) {
    case 0: memset(m, 0, n); break;
    case 1: memset(m, 0xff, n); break;
    case 2: memset(m, 0x80, n); break;
    case 3: for (size_t i = 0; i < n; i++) m[i] = (uint8_t)i; break;
    case 4: if (n) m[rnd_below(r, n)] = 0; break;
    }
}

fx *h_fx;
int h_nfx;
static int fx_first[64], fx_num[64];
static _Atomic int fx_next;
static void *fx_thread(void *a) {
    (void)a;
    REF_ON();
    for (;;) {
        int i = atomic_fetch_add(&fx_next, 1);
        if (i >= h_nfx) { REF_OFF(); return 0; }
        i = h_nfx - 1 - i;
        fx *f = &h_fx[i];
        ref_sign(f->s->r, f->sk, f->opt, f->msg, f->mlen, f->sig);
    }
}
int fx_count(const hset *s) { return fx_num[s - h_sets]; }
const fx *fx_get(const hset *s, int k) { return &h_fx[fx_first[s - h_sets] + k % fx_num[s - h_sets]]; }
void fx_build(int per_f, int per_s) {
    rng r;
    h_fx = calloc((size_t)h_nsets * (size_t)(per_f + per_s) + 1, sizeof *h_fx);
    for (int s = 0; s < h_nsets; s++) {
        const ref_ps *ps = h_sets[s].r;
        unsigned n = ps->n;
        uint8_t seed[96];
        fx_first[s] = h_nfx;
        fx_num[s] = h_is_s(ps) ? per_s : per_f;
        rng_init(&r, h_seed, 0xf1f1, (uint64_t)(ps - ref_sets));
        for (int k = 0; k < fx_num[s]; k++) {
            fx *f = &h_fx[h_nfx++];
            f->s = &h_sets[s];
            f->n = n;
            f->siglen = ref_siglen(ps);
            if (k == 0 || (k & 1)) h_seed_material(&r, ps, seed);
            REF_ON();
            ref_keygen(ps, seed, f->sk);
            REF_OFF();
            f->pk = f->sk + 2 * n;
            f->mlen = h_msglen(&r);
            f->msg = calloc(1, f->mlen + 1);
            h_msg_fill(&r, f->msg, f->mlen);
            rnd_fill(&r, f->opt, 32);
            f->det = (int)(rnd(&r) & 1);
            if (f->det) memcpy(f->opt, f->pk, n);
            f->sig = calloc(1, f->siglen);
        }
    }
    int nt = (int)sysconf(_SC_NPROCESSORS_ONLN);
    pthread_t t[64];
    if (nt > 64) nt = 64;
    if (nt > h_nfx) nt = h_nfx;
    for (int i = 0; i < nt; i++) if (pthread_create(&t[i], 0, fx_thread, 0)) exit(3);
    for (int i = 0; i < nt; i++) pthread_join(t[i], 0);
}

unsigned h_lib_sign(rng *r, const hset *s, const uint8_t *sk, const uint8_t *msg, size_t mlen,
                    const uint8_t *opt, int style, uint8_t *out, unsigned cap) {
    struct ts_context *c = malloc(sizeof *c);
    unsigned done = 0, sl = ref_siglen(s->r);
    rnd_fill(r, c, sizeof *c);
    h_rng_set(opt, s->r->n);
    ts_init_sign(c, msg, mlen, s->ps, sk, opt ? h_rng_cb : 0);
    for (int guard = 0; guard < 4 * SIGMAX && done < cap; guard++) {
        unsigned want = h_chunk(r, style, s->r->n);
        if (want > cap - done) want = cap - done;
        unsigned got = ts_sign(out + done, want, c);
        if (got > want) { viol("sign-count", "%s: asked for %u bytes, it says it made %u", s->r->name, want, got); break; }
        done += got;
        if (got < want || done >= sl) break;
    }
    free(c);
    return done;
}
vres h_lib_verify(rng *r, const hset *s, const uint8_t *pk, const uint8_t *msg, size_t mlen,
                  const uint8_t *sig, size_t siglen, int style, int poll) {
    struct ts_context *c = malloc(sizeof *c);
    vres v = {0, 1, 0, 0};
    size_t done = 0;
    rnd_fill(r, c, sizeof *c);
    ts_init_verify(c, msg, mlen, s->ps, pk);
    if (poll && ts_verify(c)) v.early++;
    while (done < siglen) {
        size_t k = h_chunk(r, style, s->r->n);
        if (k > siglen - done) k = siglen - done;
        if (!ts_update_verify(sig + done, (unsigned)k, c)) v.all_updates_ok = 0;
        done += k;
        v.chunks++;
        if (poll && done < siglen && ts_verify(c)) v.early++;
    }
    v.final = ts_verify(c);
    free(c);
    return v;
}

static int plan_f, plan_s, plan_ns, plan_sets_s[16], plan_sets_f[16], plan_nf;
uint64_t h_plan(double per_f, double per_s) {
    plan_f = per_f > 0 ? (int)(per_f * h_scale + 0.5) : 0;
    plan_s = per_s > 0 ? (int)(per_s * h_scale + 0.5) : 0;
    if (per_f > 0 && plan_f < 1) plan_f = 1;
    if (per_s > 0 && plan_s < 1) plan_s = 1;
    plan_ns = plan_nf = 0;
    for (int i = 0; i < h_nsets; i++)
        if (h_is_s(h_sets[i].r)) plan_sets_s[plan_ns++] = i;
        else plan_sets_f[plan_nf++] = i;
    return (uint64_t)plan_ns * plan_s + (uint64_t)plan_nf * plan_f;
}
const hset *h_plan_set(uint64_t id, int *k) {
    uint64_t ns = (uint64_t)plan_ns * plan_s;
    if (id < ns) {
        *k = (int)(id / plan_ns);
        return &h_sets[plan_sets_s[id % plan_ns]];
    }
    id -= ns;
    *k = (int)(id / plan_nf);
    return &h_sets[plan_sets_f[id % plan_nf]];
}

#ifdef HAVE_INTERNAL
const struct ts_parameter_set *h_chosen_make(const struct ts_parameter_set *ps, int slot);
void h_chosen_digest(const unsigned char *d, size_t n);
const struct ts_parameter_set *h_chosen(const hset *s, const uint8_t *digest) {
    h_chosen_digest(digest, ref_digest_len(s->r));
    return h_chosen_make(s->ps, (int)(s - h_sets));
}
#else
const struct ts_parameter_set *h_chosen(const hset *s, const uint8_t *digest) { (void)s; (void)digest; return 0; }
void h_force_fors_pk(const unsigned char *v, size_t n) { (void)v; (void)n; }
unsigned h_forced(void) { return 0; }
#endif
void h_digest(rng *r, const ref_ps *ps, uint64_t tree, unsigned leaf, uint8_t *digest) {
    unsigned f = (ps->k * ps->t + 7) / 8, tb = (ps->h - ps->hm + 7) / 8, lb = (ps->hm + 7) / 8;
    rnd_fill(r, digest, 64); /* the unused high bits of tree and leaf are random too */
    unsigned tbits = ps->h - ps->hm;
    uint64_t keep = tbits == 64 ? 0 : ~(((uint64_t)1 << tbits) - 1), v = (rnd(r) & keep) | (tree & ~keep);
    for (unsigned i = 0; i < tb; i++) digest[f + i] = (uint8_t)(v >> 8 * (tb - 1 - i));
    uint64_t k2 = ~(((uint64_t)1 << ps->hm) - 1), w = (rnd(r) & k2) | (leaf & ~k2);
    for (unsigned i = 0; i < lb; i++) digest[f + tb + i] = (uint8_t)(w >> 8 * (lb - 1 - i));
}
void h_extreme_digest(rng *r, const ref_ps *ps, unsigned k, uint8_t *digest) {
    unsigned tb = ps->h - ps->hm, f = (ps->k * ps->t + 7) / 8;
    uint64_t all = tb == 64 ? ~0ull : (1ull << tb) - 1, t;
    unsigned lmask = (1u << ps->hm) - 1, leaf;
    switch (k % 8) {
    case 0: t = 0; break;
    case 1: t = all; break;
    case 2: t = 1ull << (tb - 1); break;                              /* only the highest bit */
    case 3: t = all ^ 1ull << rnd_below(r, tb); break;
    case 4: t = 1ull << rnd_below(r, tb); break;
    case 5: t = tb > 32 ? all & 0xffffffff00000000ull : all - 1; break;
    case 6: t = all & 0xffffffff; break;
    default: t = rnd(r) & all; break;
    }
    switch (k / 8 % 3) {
    case 0: leaf = lmask; break;
    case 1: leaf = 0; break;
    default: leaf = (unsigned)rnd(r) & lmask; break;
    }
    h_digest(r, ps, t, leaf, digest);
    switch (rnd_below(r, 6)) {
    case 0: memset(digest, 0, f); break;
    case 1: memset(digest, 0xff, f); break;
    case 2: memset(digest, rnd(r) & 1 ? 0x55 : 0xaa, f); break;
    default: break;
    }
}

void h_extreme_value(rng *r, unsigned n, unsigned k, uint8_t *v) {
    unsigned top = 15 * 2 * n, cs; /* checksum wanted */
    static const unsigned at[] = {0, 1, 15, 16, 255, 256, 257, 511, 512, 513, 767, 768, 769, 959, 960, 479, 480, 719, 720};
    unsigned na = sizeof at / sizeof *at;
    memset(v, 0, n);
    if (k % 4 == 0) cs = top;
    else if (k % 4 == 1) cs = 0;
    else if (k % 4 == 2) do cs = at[rnd_below(r, na)]; while (cs > top);
    else cs = (unsigned)rnd_below(r, top + 1);
    for (unsigned left = top - cs; left;) {
        unsigned i = (unsigned)rnd_below(r, 2 * n), sh = i & 1 ? 0 : 4, d = v[i / 2] >> sh & 15;
        unsigned add = (unsigned)rnd_in(r, 1, 15);
        if (add > 15 - d) add = 15 - d;
        if (add > left) add = left;
        v[i / 2] = (uint8_t)(v[i / 2] + (add << sh));
        left -= add;
    }
}
