/*
 * C19: secrets steer neither control flow nor addresses.
 *
 * taint (MemorySanitizer build): SK.seed and SK.prf are marked, marks follow every value computed from
 * them, and a branch or an address that carries a mark is reported.  Values that are in the signature,
 * or that anybody computes from it (the roots), lose their mark as soon as they are produced.
 *
 * trace (every edge, load and store of the library recorded): two runs that differ in the secrets only
 * must execute the same edges and touch the same addresses, in the same order.
 */
#include "h.h"
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#define TAINT 1
#include <sanitizer/msan_interface.h>
#define REF_ON() __msan_scoped_disable_interceptor_checks()
#define REF_OFF() __msan_scoped_enable_interceptor_checks()
#define MARK(p, k) __msan_poison(p, k)
#define UNMARK(p, k) __msan_unpoison(p, k)
#define MARKED(p, k) (__msan_test_shadow(p, k) >= 0)
#define REPORTS() 0u /* a report ends the process */
#endif
#endif
#ifdef MEMCHECK /* any compiler's code, under valgrind */
#define TAINT 1
#include <valgrind/memcheck.h>
#define REF_ON() (void)0
#define REF_OFF() (void)0
#define MARK(p, k) (void)VALGRIND_MAKE_MEM_UNDEFINED(p, k)
#define UNMARK(p, k) (void)VALGRIND_MAKE_MEM_DEFINED(p, k)
static int MARKED(const void *p, size_t k) {
    uint8_t v[256], any = 0;
    for (size_t i = 0; i < k; i += sizeof v) {
        size_t c = k - i < sizeof v ? k - i : sizeof v;
        if (VALGRIND_GET_VBITS((const uint8_t *)p + i, v, c) != 1) { fprintf(stderr, "not under memcheck\n"); exit(3); }
        for (size_t j = 0; j < c; j++) any |= v[j];
    }
    return any != 0;
}
#define REPORTS() VALGRIND_COUNT_ERRORS
#endif
double h_case_cpu_limit = 200;
uint64_t h_ncases(void) {
    if (strstr(h_mode, "fastonly")) return h_plan(3, 0);
    return h_plan(3, strstr(h_mode, "slow") ? 2 : 1);
}
static struct ts_context ctx;
static uint8_t sk[128], pk[64];
static uint8_t expect[SIGMAX], got[SIGMAX];
static unsigned n, sl;

#ifdef HAVE_INTERNAL
const struct ts_parameter_set *h_watch_make(const struct ts_parameter_set *ps, int slot);
#endif

#ifdef TAINT
/* ------------------------------------------------------------------ values that are public */
#define PT 8192
static uint8_t pub[PT][32];
static uint16_t pubix[PT * 2];
static unsigned npub;
static int watching;
static uint64_t declass, marked;
static void pub_clear(void) { npub = 0; memset(pubix, 0, sizeof pubix); }
static void pub_add(const uint8_t *v) {
    if (npub + 1 >= PT) return;
    memcpy(pub[npub++], v, n);
    unsigned i = (unsigned)hash64(v, n, 3) & (2 * PT - 1);
    while (pubix[i]) i = (i + 1) & (2 * PT - 1);
    pubix[i] = (uint16_t)npub;
}
static int pub_has(const uint8_t *v) {
    for (unsigned i = (unsigned)hash64(v, n, 3) & (2 * PT - 1); pubix[i]; i = (i + 1) & (2 * PT - 1))
        if (!memcmp(pub[pubix[i] - 1], v, n)) return 1;
    return 0;
}
void watch_hook(int kind, unsigned char *o, unsigned k) {
    uint8_t t[32];
    (void)kind;
    if (!watching) return;
    if (!MARKED(o, k)) return;
    marked++;
    memcpy(t, o, k);
    UNMARK(t, k);
    if (pub_has(t)) { UNMARK(o, k); declass++; }
}

static unsigned rbytes;
static const uint8_t *rsrc;
static int secret_rng(unsigned char *p, size_t k) {
    for (size_t i = 0; i < k; i++) {
        p[i] = rbytes < 3 * n ? rsrc[rbytes] : 0x5a;
        if (rbytes < 2 * n) MARK(p + i, 1);
        rbytes++;
    }
    return 1;
}

/* what memcheck has to say (MemorySanitizer ends the process instead, which is a violation of its own) */
static int judge(const ref_ps *ps, const char *what, unsigned before) {
    unsigned now = (unsigned)REPORTS();
    if (now == before) return 0;
    viol("secret-flow", "%s: during %s with marked secrets memcheck saw %u branches or addresses that carry the mark", ps->name, what, now - before);
    return 1;
}

void h_case(uint64_t id, rng *r) {
    int k;
    const hset *s = h_plan_set(id, &k);
    const ref_ps *ps = s->r;
    n = ps->n;
    sl = ref_siglen(ps);
    uint8_t seed[96], key[128], opt[32], msg[200];
    size_t mlen = rnd_below(r, 200);
    h_seed_material(r, ps, seed);
    rnd_fill(r, msg, mlen);
    rnd_fill(r, opt, 32);
    REF_ON();
    ref_keygen(ps, seed, key);
    REF_OFF();
    UNMARK(key, sizeof key);

    /* key generation */
    unsigned reports = (unsigned)REPORTS();
    watching = 0;
    rbytes = 0;
    rsrc = seed;
    UNMARK(sk, sizeof sk);
    memset(sk, 0, sizeof sk);
    memset(pk, 0, sizeof pk);
    if (!ts_gen_key(sk, k & 1 ? pk : 0, s->ps, secret_rng)) { viol("keygen", "%s: key generation failed", ps->name); return; }
    if (!MARKED(sk, n) || !MARKED(sk + 3 * n, n)) { fprintf(stderr, "the taint tracking does not track\n"); exit(3); }
    UNMARK(sk, sizeof sk);
    UNMARK(pk, sizeof pk);
    CHECK(!memcmp(sk, key, 4 * n), "keygen", "%s: key generation with marked secrets gives another key", ps->name);
    stat_add("evaluations", 1);
    stat_add("key generations with marked secrets", 1);
    if (judge(ps, "key generation", reports)) return;
    distinct(hash64(seed, 3 * n, 1));
    if (h_is_s(ps) && !strstr(h_mode, "slow")) return;

    /* signing */
    int det = k == 1;
    const struct ts_parameter_set *w = 0;
#ifdef HAVE_INTERNAL
    w = h_watch_make(s->ps, (int)(s - h_sets));
#endif
    static uint8_t roots[32 * 40];
    ref_pos pos;
    REF_ON();
    ref_sign(ps, key, det ? key + 2 * n : opt, msg, mlen, expect);
    ref_walk(ps, key + 2 * n, msg, mlen, expect, &pos, roots);
    REF_OFF();
    UNMARK(expect, sl);
    UNMARK(roots, sizeof roots);
    pub_clear();
    for (unsigned i = 0; i < sl / n; i++) pub_add(expect + i * n);
    for (unsigned i = 0; i <= ps->d; i++) pub_add(roots + i * n);
    memset(&ctx, 0, sizeof ctx);
    marked = declass = 0;
    watching = w != 0;
    MARK(sk, 2 * n);
    h_rng_set(opt, n);
    ts_init_sign(&ctx, msg, mlen, w ? w : s->ps, sk, det ? 0 : h_rng_cb);
    unsigned g = 0, through = 0;
    int style = (int)rnd_below(r, 3);
    while (g < sl) {
        /* without sight of the hash functions' results, marks are dropped between calls instead */
        if (!w) UNMARK(&ctx, sizeof ctx);
        unsigned c = !w ? n : style == 0 ? n : style == 1 ? (unsigned)rnd_in(r, 1, 2 * n) : sl;
        if (c > sl - g) c = sl - g;
        unsigned d = ts_sign(got + g, c, &ctx);
        for (unsigned i = 0; i < d; i++) through += MARKED(got + g + i, 1);
        UNMARK(got + g, c);
        g += d;
        if (d != c) break;
    }
    watching = 0;
    UNMARK(sk, sizeof sk);
    UNMARK(&ctx, sizeof ctx);
    CHECK(g == sl && !memcmp(got, expect, sl), "sign", "%s: signing with marked secrets gives another signature (%u bytes)", ps->name, g);
    if (w && (!marked || !declass)) { fprintf(stderr, "the taint tracking does not track: %llu %llu\n", (unsigned long long)marked, (unsigned long long)declass); exit(3); }
    stat_add("evaluations", 1);
    stat_add("signatures with marked secrets", 1);
    if (judge(ps, "signing", reports)) return;
    stat_add("hash results that carried the mark", marked);
    stat_add("hash results that are public", declass);
    stat_add("signature bytes that carried the mark out", through);
    if (k == 0) sample("%s: %llu hash results carried the mark of the secret, %llu of them public; no branch and no address did", ps->name, (unsigned long long)marked, (unsigned long long)declass);
}
#else
/* ------------------------------------------------------------------ traces */
void watch_hook(int kind, unsigned char *o, unsigned k) { (void)kind; (void)o; (void)k; }
static int tracing;
static uint64_t th, tcount, tedges;
static inline void tev(uint64_t x) { th = (th ^ x) * 0x9E3779B97F4A7C15ull; th ^= th >> 29; tcount++; }
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { static uint32_t c; for (; a < b; a++) if (!*a) *a = ++c; }
void __sanitizer_cov_trace_pc_guard(uint32_t *g) { if (tracing) { tev(*g); tedges++; } }
#define LS(sz) void __sanitizer_cov_load##sz(const void *p) { if (tracing) tev((uint64_t)(uintptr_t)p ^ 0x1000000000000000ull * (sz & 15)); } \
    void __sanitizer_cov_store##sz(const void *p) { if (tracing) tev((uint64_t)(uintptr_t)p ^ 0x0800000000000000ull ^ 0x1000000000000000ull * (sz & 15)); }
LS(1) LS(2) LS(4) LS(8) LS(16)
void *__real_memcpy(void *d, const void *s, size_t k);
void *__real_memset(void *d, int c, size_t k);
void *__real_memmove(void *d, const void *s, size_t k);
void *__wrap_memcpy(void *d, const void *s, size_t k) { if (tracing) { tev((uintptr_t)d); tev((uintptr_t)s); tev(k); } return __real_memcpy(d, s, k); }
void *__wrap_memmove(void *d, const void *s, size_t k) { if (tracing) { tev((uintptr_t)d); tev((uintptr_t)s); tev(k); } return __real_memmove(d, s, k); }
void *__wrap_memset(void *d, int c, size_t k) { if (tracing) { tev((uintptr_t)d); tev(k); } return __real_memset(d, c, k); }

#define KEYS 6
typedef struct { uint64_t h, n; } tr;
#define MAXSTEP 4200
static tr steps[KEYS][MAXSTEP];
static uint8_t digits[KEYS][40][80];
static unsigned nsteps[KEYS];

static void begin(void) { th = 0x1234567; tcount = 0; tracing = 1; }
static tr end(void) { tracing = 0; tr t = {th, tcount}; stat_add("edges, loads and stores traced", tcount); return t; }

static uint8_t seedk[96];
static int fixed_rng(unsigned char *p, size_t k) { /* not traced itself */
    int t = tracing;
    tracing = 0;
    memcpy(p, seedk, k < 96 ? k : 96);
    tracing = t;
    return 1;
}
__attribute__((noinline)) static tr do_keygen(const hset *s, uint8_t *pkp) {
    begin();
    ts_gen_key(sk, pkp, s->ps, fixed_rng);
    return end();
}
__attribute__((noinline)) static tr do_init(const struct ts_parameter_set *ps, const uint8_t *m, size_t ml) {
    begin();
    ts_init_sign(&ctx, m, ml, ps, sk, 0);
    return end();
}
__attribute__((noinline)) static tr do_step(uint8_t *o) {
    begin();
    ts_sign(o, n, &ctx);
    return end();
}

void h_case(uint64_t id, rng *r) {
    int k;
    const hset *s = h_plan_set(id, &k);
    const ref_ps *ps = s->r;
    n = ps->n;
    sl = ref_siglen(ps);
    int slow = h_is_s(ps), nk = slow ? 2 : KEYS;
    uint8_t pubseed[32], dg[64], msg[100];
    static const uint8_t *what;
    (void)what;
    rnd_fill(r, pubseed, 32);
    h_digest(r, ps, rnd(r), (unsigned)rnd(r), dg);
    size_t mlen = rnd_below(r, 100);
    rnd_fill(r, msg, mlen);
    uint8_t *pkp = rnd(r) & 1 ? pk : 0;
    tr first = {0, 0};
    /* key generation: the secrets differ, all else is the same */
    for (int i = 0; i < nk; i++) {
        rnd_fill(r, seedk, 96);
        if (i == 1) memset(seedk, 0, 2 * n);
        if (i == 2) memset(seedk, 0xff, 2 * n);
        if (i == 3) h_seed_material(r, ps, seedk);
        memcpy(seedk + 2 * n, pubseed, n);
        tr t = do_keygen(s, pkp);
        if (!tedges || t.n < 10000) { fprintf(stderr, "the tracing does not trace\n"); exit(3); }
        stat_add("evaluations", 1);
        stat_add("traces compared", i != 0);
        if (!i) first = t;
        else CHECK(t.h == first.h && t.n == first.n, "keygen-trace", "%s: key generation with two secrets (same public seed) takes different paths or touches different addresses (%llu and %llu events); second seed %s", ps->name,
                   (unsigned long long)first.n, (unsigned long long)t.n, hex(seedk, 3 * n));
        distinct(hash64(seedk, 96, 1));
    }
    if (k == 0) sample("%s: key generation, %llu edges, loads and stores, the same for %d secrets", ps->name, (unsigned long long)first.n, nk);
    const struct ts_parameter_set *cps = h_chosen(s, dg);
    if (!cps || slow) return;
    ref_pos pos;
    ref_parse_digest(ps, dg, &pos);
    unsigned fsteps = 1 + ps->k * (ps->t + 1), lsteps = 2 * n + 3 + ps->hm;
    tr in0 = {0, 0};
    for (int i = 0; i < nk; i++) {
        uint8_t roots[32 * 40];
        rnd_fill(r, sk, 128);
        memcpy(sk + 2 * n, pubseed, n);
        if (i == 1) memset(sk, 0, 2 * n);
        tr t = do_init(cps, msg, mlen);
        if (!i) in0 = t;
        else CHECK(t.h == in0.h && t.n == in0.n, "init-trace", "%s: ts_init_sign with two secret keys takes different paths (%llu and %llu events); second key %s, %zu-byte message", ps->name, (unsigned long long)in0.n, (unsigned long long)t.n, hex(sk, 2 * n), mlen);
        nsteps[i] = sl / n;
        for (unsigned j = 0; j < nsteps[i] && j < MAXSTEP; j++) steps[i][j] = do_step(got + j * n);
        ref_walk_at(ps, sk + 2 * n, got, &pos, roots);
        for (unsigned l = 0; l < ps->d; l++) {
            unsigned dig[80];
            ref_wots_digits(ps, roots + l * n, dig);
            for (unsigned c = 0; c < 2 * n + 3; c++) digits[i][l][c] = (uint8_t)dig[c];
        }
        stat_add("evaluations", 1);
        for (int o = 0; o < i; o++) {
            for (unsigned j = 0; j < nsteps[i]; j++) {
                int cmp = 1;
                unsigned l = 0, c = 0;
                if (j >= fsteps) {
                    l = (j - fsteps) / lsteps;
                    c = (j - fsteps) % lsteps;
                    if (c < 2 * n + 3) /* the digits are public, the path may depend on them */
                        cmp = digits[i][l][c] == digits[o][l][c] && (c + 1 >= 2 * n + 3 || digits[i][l][c + 1] == digits[o][l][c + 1]);
                    else if (c == lsteps - 1) cmp = 0;
                } else if (j == fsteps - 1) cmp = 0;
                if (!cmp) continue;
                stat_add("traces compared", 1);
                if (steps[i][j].h != steps[o][j].h || steps[i][j].n != steps[o][j].n) {
                    viol("sign-trace", "%s: producing block %u of the signature (%s) takes different paths for two secret keys where all public values agree (%llu and %llu events); keys differ in the secret part only, second %s", ps->name, j,
                         j < fsteps ? "FORS" : c < 2 * n + 3 ? "WOTS" : "Merkle", (unsigned long long)steps[o][j].n, (unsigned long long)steps[i][j].n, hex(sk, 2 * n));
                    return;
                }
            }
        }
    }
}
#endif
