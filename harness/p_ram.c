/*
 * C11: every library call runs on its own painted stack, with the allocator watched.
 * mode "spread": peak stack of a call must not depend on message, chunking or data.
 * mode "figures": context size and peaks against the published figures (one parameter set per build).
 * mode "heap": no allocation, no mapping during any call.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <sys/mman.h>
#include <unistd.h>
#include "h.h"
double h_case_cpu_limit = 120;

/* ------------------------------------------------------------- allocator watch */
static __thread volatile int in_lib;
static __thread volatile unsigned heap_calls;
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t), *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);
#define NOTE() do { if (in_lib) heap_calls++; } while (0)
void *malloc(size_t n) { NOTE(); return __libc_malloc(n); }
void *calloc(size_t a, size_t b) { NOTE(); return __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { NOTE(); return __libc_realloc(p, n); }
void free(void *p) { NOTE(); __libc_free(p); }
void *memalign(size_t a, size_t n) { NOTE(); return __libc_memalign(a, n); }
void *aligned_alloc(size_t a, size_t n) { NOTE(); return __libc_memalign(a, n); }
int posix_memalign(void **p, size_t a, size_t n) { NOTE(); return (*p = __libc_memalign(a, n)) ? 0 : ENOMEM; }

/* ------------------------------------------------------------- painted stack */
#define STK (256 * 1024)
static uint8_t *stk, *img; /* the stack (guard page below) and what it looks like untouched */
static size_t lw;         /* everything below this many bytes from the top is painted */

long call_on(void *sp, void *fn, long a, long b, long c, long d, long e, long f);
__asm__(".text\n.globl call_on\ncall_on:\n"
        "push %rbp\nmov %rsp,%rbp\nmov %rdi,%rsp\nmov %rsi,%rax\n"
        "mov %rdx,%rdi\nmov %rcx,%rsi\nmov %r8,%rdx\nmov %r9,%rcx\n"
        "mov 16(%rbp),%r8\nmov 24(%rbp),%r9\n"
        "call *%rax\nmov %rbp,%rsp\npop %rbp\nret\n");

static void stk_init(void) {
    if (stk) return;
    uint8_t *b = mmap(0, STK + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    rng r;
    if (b == MAP_FAILED || mprotect(b, 4096, PROT_NONE)) exit(3);
    stk = b + 4096;
    img = malloc(STK);
    rng_init(&r, 77, 1, 2);
    rnd_fill(&r, img, STK);
    memcpy(stk, img, STK);
}
static unsigned last_peak;
static const char *cur;
/* lowest byte that differs from the paint, looking at [from, STK) */
static size_t lowest(size_t from) {
    size_t i = from;
    while (i < STK && !memcmp(stk + i, img + i, STK - i < 512 ? STK - i : 512)) i += 512;
    if (i >= STK) return STK;
    while (!(i & 7) && !memcmp(stk + i, img + i, 8)) i += 8;
    return i;
}
/* full: look at the whole stack, else at 8 KiB below the deepest use known */
static long on_(int full, const char *what, void *fn, long a, long b, long c, long d, long e, long f) {
    memcpy(stk + STK - lw, img + STK - lw, lw);
    heap_calls = 0;
    in_lib = 1;
    long r = call_on(stk + STK, fn, a, b, c, d, e, f);
    in_lib = 0;
    size_t from = full || lw + 8192 > STK ? 0 : STK - (lw + 8192) / 512 * 512;
    last_peak = (unsigned)(STK - lowest(from));
    if (last_peak > lw) lw = last_peak;
    if (heap_calls) viol("heap", "%s: %u allocator calls during %s", cur, heap_calls, what);
    stat_add("evaluations", 1);
    return r;
}
static unsigned callno;
static long on(const char *what, void *fn, long a, long b, long c, long d, long e, long f) {
    long r = on_(callno++ % 64 == 0, what, fn, a, b, c, d, e, f);
    if (callno % 64 == 63 && lowest(0) < STK - lw) { /* something deep that single calls did not show */
        last_peak = (unsigned)(STK - lowest(0));
        lw = last_peak;
    }
    return r;
}
/* the random function must not count: it runs on this stack, but uses next to none of it */
static const uint8_t *rdata;
static int rcb(unsigned char *p, size_t n) {
    for (size_t i = 0; i < n; i++) p[i] = rdata[i];
    return 1;
}

typedef struct { unsigned gen, isign, sign, iver, upd, ver; } peaks;
#define UP(x) do { if (last_peak > (x)) (x) = last_peak; } while (0)

static unsigned do_sign(rng *r, const hset *s, const uint8_t *sk, const uint8_t *m, size_t mlen, const uint8_t *opt,
                        int style, unsigned cap, uint8_t *out, peaks *p) {
    static struct ts_context c;
    unsigned done = 0, n = s->r->n;
    rdata = opt;
    on("ts_init_sign", (void *)ts_init_sign, (long)&c, (long)m, (long)mlen, (long)s->ps, (long)sk, (long)(opt ? rcb : 0));
    UP(p->isign);
    while (done < cap) {
        unsigned want = h_chunk(r, style, n);
        if (want > cap - done) want = cap - done;
        unsigned got = (unsigned)on("ts_sign", (void *)ts_sign, (long)(out + done), want, (long)&c, 0, 0, 0);
        UP(p->sign);
        done += got;
        if (got != want) break;
    }
    return done;
}
static int do_verify(rng *r, const hset *s, const uint8_t *pk, const uint8_t *m, size_t mlen, const uint8_t *sig, size_t len, int style, peaks *p) {
    static struct ts_context c;
    size_t d = 0;
    on("ts_init_verify", (void *)ts_init_verify, (long)&c, (long)m, (long)mlen, (long)s->ps, (long)pk, 0);
    UP(p->iver);
    while (d < len) {
        size_t k = h_chunk(r, style, s->r->n);
        if (k > len - d) k = len - d;
        on("ts_update_verify", (void *)ts_update_verify, (long)(sig + d), (long)k, (long)&c, 0, 0, 0);
        UP(p->upd);
        d += k;
    }
    int v = (int)on("ts_verify", (void *)ts_verify, (long)&c, 0, 0, 0, 0, 0);
    UP(p->ver);
    return v;
}

static int figures;
uint64_t h_ncases(void) {
    figures = !strcmp(h_mode, "figures") || !strcmp(h_mode, "measure");
    if (figures) return (uint64_t)h_nsets;
    return h_plan(2, h_scale >= .5 ? 1 : 0);
}

/* every session's peak of a call against the lowest and highest seen for this set */
typedef struct { const char *what; unsigned lo, hi; char lod[80], hid[80]; } span;
#define TOL 160
static void feed(span *sp, unsigned v, const char *d) {
    if (!v) return;
    if (!sp->hi || v < sp->lo) { sp->lo = v; snprintf(sp->lod, sizeof sp->lod, "%s", d); }
    if (v > sp->hi) { sp->hi = v; snprintf(sp->hid, sizeof sp->hid, "%s", d); }
}

static void c_figures(const hset *s, rng *r);

void h_case(uint64_t id, rng *r) {
    int kk;
    stk_init();
    if (figures) { c_figures(&h_sets[id], r); return; }
    const hset *s = h_plan_set(id, &kk);
    const ref_ps *ps = s->r;
    unsigned n = ps->n, sl = ref_siglen(ps);
    int slow = h_is_s(ps);
    cur = ps->name;
    static uint8_t out[SIGMAX], seed[96], sk[128], pk[64];
    static uint8_t *big;
    size_t bigsz = 3u << 20;
    if (!big) {
        big = malloc(bigsz);
        rnd_fill(r, big, bigsz);
    }
    span sp[6] = {{"ts_gen_key", 0, 0, "", ""}, {"ts_init_sign", 0, 0, "", ""}, {"ts_sign", 0, 0, "", ""},
                  {"ts_init_verify", 0, 0, "", ""}, {"ts_update_verify", 0, 0, "", ""}, {"ts_verify", 0, 0, "", ""}};
    /* key generation */
    int ng = slow ? 1 : 4;
    for (int i = 0; i < ng; i++) {
        h_seed_material(r, ps, seed);
        rdata = seed;
        on("ts_gen_key", (void *)ts_gen_key, (long)sk, (long)(i & 1 ? 0 : pk), (long)s->ps, (long)rcb, 0, 0);
        feed(&sp[0], last_peak, i & 1 ? "without public key" : "with public key");
    }
    if (slow) rnd_fill(r, sk, 4 * n);
    static const size_t lens[] = {0, 1, 3, 17, 40, 55, 64, 70, 95, 96, 104, 111, 112, 119, 128, 136, 200, 256, 300, 1000, 5000, 70000, 3u << 20};
    /* starting and the first bytes: every message length; whole signatures: a few */
    for (unsigned i = 0; i < sizeof lens / sizeof *lens; i++) {
        size_t ml = lens[i] <= bigsz ? lens[i] : bigsz;
        char d[80];
        for (int q = 0; q < 2; q++) {
            peaks p = {0};
            uint8_t opt[32];
            rnd_fill(r, opt, 32);
            do_sign(r, s, sk, big + (bigsz - ml), ml, q ? opt : 0, 1, n, out, &p); /* R only: no FORS work yet */
            snprintf(d, sizeof d, "%zu-byte message, %s", ml, q ? "randomised" : "deterministic");
            feed(&sp[1], p.isign, d);
            distinct(hash64(d, strlen(d), id * 2 + 1));
        }
        if (ml > 100000 && slow) continue;
        peaks p = {0};
        int st = (int)(i % H_CHUNK_STYLES);
        rnd_fill(r, out, sl);
        do_verify(r, s, sk + 2 * n, big + (bigsz - ml), ml, out, sl + (i & 1 ? 0 : 0), st, &p);
        snprintf(d, sizeof d, "%zu-byte message, chunk style %d", ml, st);
        feed(&sp[3], p.iver, d);
        feed(&sp[4], p.upd, d);
        feed(&sp[5], p.ver, d);
        distinct(hash64(d, strlen(d), id * 2));
    }
    /* whole signatures in different chunkings */
    static const int styles[] = {0, 1, 4, 5};
    static const size_t ml2[] = {0, 33, 70000, 150};
    for (int i = 0; i < 4; i++) {
        if (slow && i) break;
        peaks p = {0};
        char d[80];
        unsigned got = do_sign(r, s, sk, big, ml2[(i + kk) % 4], i & 1 ? seed : 0, slow ? 1 : styles[i], slow ? n * (ps->t + 2) : sl, out, &p);
        snprintf(d, sizeof d, "%zu-byte message, chunk style %d", ml2[(i + kk) % 4], styles[i]);
        feed(&sp[1], p.isign, d);
        feed(&sp[2], p.sign, d);
        stat_add("signature bytes", got);
        if (!slow) {
            peaks v = {0};
            int ok = do_verify(r, s, sk + 2 * n, big, ml2[(i + kk) % 4], out, sl, styles[(i + 1) % 4], &v);
            feed(&sp[4], v.upd, d);
            feed(&sp[5], v.ver, d);
            stat_add("own signatures accepted", (uint64_t)ok);
        }
    }
    for (int i = 0; i < 6; i++) {
        if (!sp[i].hi) continue;
        if (sp[i].hi - sp[i].lo > TOL)
            viol("spread", "%s: %s needs %u bytes of stack for a %s, but %u for a %s", ps->name, sp[i].what, sp[i].hi, sp[i].hid, sp[i].lo, sp[i].lod);
        if (sp[i].hi > 4096)
            viol("bound", "%s: %s needs %u bytes of stack", ps->name, sp[i].what, sp[i].hi);
    }
    sample("%s: stack bytes gen_key %u, init_sign %u..%u, sign %u..%u, init_verify %u..%u, update_verify %u..%u, verify %u", ps->name, sp[0].hi, sp[1].lo, sp[1].hi,
           sp[2].lo, sp[2].hi, sp[3].lo, sp[3].hi, sp[4].lo, sp[4].hi, sp[5].hi);
    stat_add("sessions", 80);
}

/* ------------------------------------------------------------- published figures */
static int published(const char *name, unsigned v[4]) {
    static const struct { const char *n; unsigned v[4]; } def[] = {
        {"sha2_128f", {472, 976, 1024, 992}}, {"sha2_128s", {568, 1072, 1120, 1088}}, {"sha2_192f", {768, 1296, 1456, 1408}},
        {"sha2_192s", {912, 1440, 1600, 1552}}, {"sha2_256f", {872, 1408, 1568, 1536}}, {"sha2_256s", {1032, 1568, 1728, 1696}},
        {"shake_128f", {672, 1104, 1120, 928}}, {"shake_128s", {768, 1200, 1216, 1024}}, {"shake_192f", {776, 1216, 1232, 1040}},
        {"shake_192s", {920, 1360, 1376, 1184}}, {"shake_256f", {880, 1312, 1328, 1136}}, {"shake_256s", {1040, 1472, 1488, 1296}}};
    for (unsigned i = 0; i < sizeof def / sizeof *def; i++)
        if (!strcmp(def[i].n, name)) { memcpy(v, def[i].v, sizeof def[i].v); return 1; }
    return 0;
}
static void c_figures(const hset *s, rng *r) {
    const ref_ps *ps = s->r;
    unsigned n = ps->n, sl = ref_siglen(ps), pub[4];
    /* the build is for the strongest and slowest set it contains: that one is measured */
    for (int i = 0; i < h_nsets; i++)
        if (h_sets[i].r->n > n || (h_sets[i].r->n == n && h_is_s(h_sets[i].r) && !h_is_s(ps))) return;
    cur = ps->name;
    if (!published(ps->name, pub)) exit(3);
    static uint8_t out[SIGMAX], seed[96], sk[128];
    peaks p = {0};
    rnd_fill(r, seed, 96);
    rdata = seed;
    on("ts_gen_key", (void *)ts_gen_key, (long)sk, 0, (long)s->ps, (long)rcb, 0, 0);
    UP(p.gen);
    /* slow sets: up to the first inner authentication path (the rest repeats it), whole signatures when thorough */
    unsigned wlen = 2 * n + 3, cap = h_is_s(ps) && !h_thorough && strcmp(h_mode, "measure") ? n * (1 + ps->k * (ps->t + 1) + wlen + 2) : sl;
    unsigned got = do_sign(r, s, sk, (const uint8_t *)"abc", 3, 0, 0, cap, out, &p);
    if (got < sl) rnd_fill(r, out + got, sl - got);
    int ok = do_verify(r, s, sk + 2 * n, (const uint8_t *)"abc", 3, out, sl, 1, &p);
    unsigned ctx = sizeof(struct ts_context);
    unsigned m[4] = {ctx, p.gen, ctx + (p.isign > p.sign ? p.isign : p.sign),
                     ctx + (p.iver > p.upd ? (p.iver > p.ver ? p.iver : p.ver) : (p.upd > p.ver ? p.upd : p.ver))};
    if (!strcmp(h_mode, "measure")) { /* for C20: just say it */
        stat_add("measured context", m[0]);
        stat_add("measured key generation", m[1]);
        stat_add("measured signing", m[2]);
        stat_add("measured verification", m[3]);
        if (!ok) stat_add("refused own signature", 1);
        distinct(hash64(ps->name, strlen(ps->name), 1));
        return;
    }
    static const char *nm[4] = {"context", "key generation", "signing", "verification"};
    for (int i = 0; i < 4; i++) {
        unsigned slack = i ? 176 : 64;
        if (m[i] > pub[i] + slack)
            viol("figure", "%s: %s takes %u bytes in the small-memory build; %u are published", ps->name, nm[i], m[i], pub[i]);
        else if (i && m[i] + 400 < pub[i]) stat_add("well below the published figure", 1);
        distinct(hash64(ps->name, strlen(ps->name), (uint64_t)i));
    }
    stat_add("own signatures accepted", (uint64_t)ok);
    stat_add("signature bytes", got);
    sample("%s: context %u (%u published), key generation %u (%u), signing %u (%u), verification %u (%u)", ps->name, m[0], pub[0], m[1], pub[1], m[2], pub[2], m[3], pub[3]);
}
