/*
 * C21: the work an operation does, in instructions counted by valgrind, against the number of hash
 * computations the scheme calls for. Runs under callgrind; the counts are read back from the dumps
 * it makes on request. The price of one hash block is measured in the same build.
 */
#include <unistd.h>
#include <math.h>
#include <valgrind/callgrind.h>
#include "h.h"
#ifdef HAVE_PRIMITIVES
#include "sha2.h"
#include "fips202.h"
#endif
double h_case_cpu_limit = 900;

/* what an operation may cost: a multiple of its hash blocks, and some for every call.
   On the unchanged tree: SHAKE 0.85 to 1.03 times (the price includes the absorption of a whole block),
   SHA-2 1.01 to 1.17, without the optimisation 1.14 to 1.44 (it feeds the padding byte by byte) */
static double factor(const ref_ps *r) {
    if (!r->sha2) return 1.6;
#if TS_SHA2_OPTIMIZATION
    return 1.7;
#else
    return 2.0;
#endif
}
#define PER_CALL 1500.0

/* ---- counting */
static unsigned ndump;
static pid_t dpid;
static void zero(void) { CALLGRIND_ZERO_STATS; }
static uint64_t count(void) {
    if (dpid != getpid()) { dpid = getpid(); ndump = 0; }
    CALLGRIND_DUMP_STATS;
    char fn[64], line[512];
    uint64_t v = 0;
    snprintf(fn, sizeof fn, "cg.%d.%u", (int)getpid(), ++ndump);
    FILE *f = fopen(fn, "r");
    if (!f) { fprintf(stderr, "no dump %s\n", fn); _exit(3); }
    while (fgets(line, sizeof line, f)) {
        if (sscanf(line, "summary: %lu", &v) == 1) break;
        if (sscanf(line, "totals: %lu", &v) == 1) break;
    }
    fclose(f);
    unlink(fn);
    if (!v) { fprintf(stderr, "no count in %s\n", fn); _exit(3); }
    return v;
}

/* ---- the price of one block of each hash */
static double u256, u512, ukec;
static void prices(void) {
    if (u256 || u512 || ukec) return;
#ifdef HAVE_PRIMITIVES
    static uint8_t m[128 * 40];
    uint8_t o[64];
    for (int w = 0; w < 3; w++) {
        double v[2];
        for (int l = 0; l < 2; l++) {
            size_t nb = l ? 34 : 2;
            zero();
            if (w == 2) {
#if TS_SUPPORT_SHAKE
                SHAKE256_CTX c;
                ts_shake256_inc_init(&c);
                ts_shake256_inc_absorb(&c, m, 136 * nb - 1);
                ts_shake256_inc_finalize(&c);
                ts_shake256_inc_squeeze(o, 32, &c);
#endif
            } else {
#if TS_SUPPORT_SHA2
                if (w == 0) { SHA256_CTX c; ts_SHA256_init(&c); ts_SHA256_update(&c, m, 64 * nb); ts_SHA256_final(o, &c); }
#if TS_SUPPORT_L5 || TS_SUPPORT_L3
                else { SHA512_CTX c; ts_SHA512_init(&c); ts_SHA512_update(&c, m, 128 * nb); ts_SHA512_final(o, &c); }
#endif
#endif
            }
            v[l] = (double)count();
        }
        double u = (v[1] - v[0]) / 32;
        if (u < 50) u = 0;
        if (w == 0) u256 = u; else if (w == 1) u512 = u; else ukec = u;
    }
#endif
}

/* ---- what the scheme calls for */
typedef struct { double f, h, tw, tf; uint64_t chain; } price;     /* of F or PRF, of two nodes, of a WOTS key, of the FORS roots */
static double blocks(double bytes, double block, double pad) {
    uint64_t b = (uint64_t)bytes + (uint64_t)pad;
    return (double)((b + (uint64_t)block - 1) / (uint64_t)block);
}
static price price_of(const ref_ps *r) {
    price p;
    double n = r->n;
    if (!r->sha2) {
        p.f = ukec * blocks(n + 32 + n, 136, 1);
        p.h = ukec * blocks(n + 32 + 2 * n, 136, 1);
        p.tw = ukec * blocks(n + 32 + (2 * n + 3) * n, 136, 1);
        p.tf = ukec * blocks(n + 32 + r->k * n, 136, 1);
    } else {
#if TS_SHA2_OPTIMIZATION
        double pre = 0;
#else
        double pre = 1;
#endif
        double u = r->n == 16 ? u256 : u512, b = r->n == 16 ? 64 : 128, pad = r->n == 16 ? 9 : 17;
        p.f = u256 * (pre + blocks(22 + n, 64, 9));
        p.h = u * (pre + blocks(22 + 2 * n, b, pad));
        p.tw = u * (pre + blocks(22 + (2 * n + 3) * n, b, pad));
        p.tf = u * (pre + blocks(22 + r->k * n, b, pad));
    }
    return p;
}
static double start_cost(const ref_ps *r) { return 16 * (!r->sha2 ? ukec : r->n == 16 ? u256 : u512 + u256); }
static double leaf_cost(const ref_ps *r, price p) { return (2.0 * r->n + 3) * 16 * p.f + p.tw; }
static double keygen_cost(const ref_ps *r, price p) {
    double l = (double)(1u << r->hm);
    return l * leaf_cost(r, p) + (l - 1) * p.h + start_cost(r);
}
/* of the first `trees` FORS trees and `layers` layers; the chains of a WOTS signature are walked to the signed
   values, and once more for the key they belong to */
static double sign_cost(const ref_ps *r, price p, unsigned trees, unsigned layers) {
    double l = (double)(1u << r->hm), leaves = (double)(1u << r->t);
    double c = start_cost(r) + trees * (leaves * 2 * p.f + (leaves - 1) * p.h + 2 * p.f);
    if (trees == r->k) c += p.tf;
    return c + layers * (l * leaf_cost(r, p) + (l - 1) * p.h + (2.0 * r->n + 3) * 9.5 * p.f);
}
static double verify_cost(const ref_ps *r, price p, double steps) {
    return start_cost(r) + r->k * (p.f + r->t * p.h) + p.tf + steps * p.f + r->d * (p.tw + r->hm * p.h);
}

/* one pass over a message; it costs what the measured blocks cost, so that twice is told from once */
static double pass_cost(const ref_ps *r, size_t len) {
    return !r->sha2 ? ukec * blocks((double)len, 136, 1) : r->n == 16 ? u256 * blocks((double)len, 64, 9) : u512 * blocks((double)len, 128, 17);
}
#define PASS_FACTOR 1.4

/* ---- cases: set, then what */
enum { KEYGEN, SIGN, SIGN_PIECES, VERIFY, VERIFY_PIECES, VERIFY_JUNK, LONG_SIGN, LONG_VERIFY, KINDS };
static const char *const kname[KINDS] = {"key generation", "signing at once", "signing in pieces", "verifying at once", "verifying in pieces", "refusing junk", "starting to sign a long message", "refusing junk for a long message"};
static int whole(void) { return h_thorough || strstr(h_mode, "whole") != 0; }
static int only_light(void) { return strstr(h_mode, "light") != 0; }
uint64_t h_ncases(void) { return (uint64_t)h_nsets * KINDS; }

static void judge_by(const ref_ps *r, int kind, uint64_t v, double need, double fac, double extra);
static void judge(const ref_ps *r, int kind, uint64_t v, double need, uint64_t calls) {
    double lim = factor(r) * need + PER_CALL * (double)calls, ratio = (double)v / (need > 0 ? need : 1);
    stat_add("instructions counted", v);
    stat_add("evaluations", 1);
    FILE *show = getenv("VERIF_WORK_SHOW") ? fopen(getenv("VERIF_WORK_SHOW"), "a") : 0;
    if (show) fprintf(show, "WORK %s %s %s: %lu instructions, %.2f of the hash blocks, %lu calls\n", h_tag, r->name, kname[kind], v, ratio, calls);
    if (show) fclose(show);
    CHECK((double)v <= lim, "work", "%s [%s]: %s takes %lu instructions in %lu calls, where the hash blocks the scheme calls for take %.0f (%.2f times)",
          r->name, h_tag, kname[kind], v, calls, need, ratio);
    if (!h_viols()) sample("%s %s: %lu instructions in %lu calls, %.2f times the price of the hash blocks called for", r->name, kname[kind], v, calls, ratio);
    distinct(hash64(&v, sizeof v, hash64(h_tag, strlen(h_tag), (uint64_t)(h_cur_case() + 1))));
}


static void judge_by(const ref_ps *r, int kind, uint64_t v, double need, double fac, double extra) {
    double lim = fac * need + extra, ratio = (double)v / (need > 0 ? need : 1);
    stat_add("instructions counted", v);
    stat_add("evaluations", 1);
    stat_add("long messages priced", 1);
    FILE *show = getenv("VERIF_WORK_SHOW") ? fopen(getenv("VERIF_WORK_SHOW"), "a") : 0;
    if (show) fprintf(show, "WORK %s %s %s: %lu instructions, %.2f of the passes over the message (limit %.2f)\n", h_tag, r->name, kname[kind], v, ratio, lim / need);
    if (show) fclose(show);
    CHECK((double)v <= lim, "work", "%s [%s]: %s takes %lu instructions, where passing over the message takes %.0f (%.2f times)", r->name, h_tag, kname[kind], v, need, ratio);
    distinct(hash64(&v, sizeof v, hash64(h_tag, strlen(h_tag), (uint64_t)(h_cur_case() + 1))));
}

static size_t piece(rng *r, int style) { return style == 0 ? 1 : style == 1 ? rnd_in(r, 1, 7) : style == 2 ? rnd_in(r, 0, 3) : rnd_in(r, 1, 100); }

void h_case(uint64_t id, rng *r) {
    const hset *s = &h_sets[id / KINDS];
    const ref_ps *p = s->r;
    int kind = (int)(id % KINDS), slow = p->t > 10;
    static uint8_t sk[128], pk[64], sig[50000], seed[128], opt[32], msg[400];
    unsigned n = p->n;
    prices();
    price c = price_of(p);
    size_t len = rnd_in(r, 0, 300);
    rnd_fill(r, msg, sizeof msg);
    rnd_fill(r, seed, sizeof seed);
    rnd_fill(r, opt, sizeof opt);
    struct ts_context ctx;
    if (c.f == 0) {
        /* the primitives are not as known: the price of a block is what key generation of this set makes it */
        if (slow && !whole()) { stat_add("evaluations", 1); distinct(id); return; }
        u256 = ukec = 1; u512 = 2;
        h_rng_set(seed, sizeof seed);
        zero();
        (void)ts_gen_key(sk, pk, s->ps, h_rng_cb);
        double u = (double)count() / keygen_cost(p, price_of(p));
        u256 = ukec = u; u512 = 2 * u;
        c = price_of(p);
        u256 = u512 = ukec = 0;
        stat_add("priced by key generation", 1);
    }
    if (kind == KEYGEN) {
        if (slow && !whole()) { stat_add("evaluations", 1); return; }
        h_rng_set(seed, sizeof seed);
        zero();
        int ok = ts_gen_key(sk, pk, s->ps, h_rng_cb);
        uint64_t v = count();
        CHECK(ok == 1, "keygen", "%s: key generation failed", p->name);
        judge(p, kind, v, keygen_cost(p, c), 1);
        return;
    }
    /* keys and signatures come from the reference, outside the count */
    if (kind == SIGN || kind == SIGN_PIECES) {
        unsigned trees = p->k, layers = p->d;
        if (slow && !whole()) { trees = p->t > 12 ? 1 : 2; layers = 0; }
        else if (only_light() || (kind == SIGN_PIECES && !whole())) layers = 2;
        size_t want = (size_t)n + (size_t)trees * (p->t + 1) * n + (size_t)layers * (2 * n + 3 + p->hm) * n;
        rnd_fill(r, sk, 4 * n);
        uint64_t calls = 0;
        int style = (int)(rnd(r) % 4);
        h_rng_set(opt, sizeof opt);
        zero();
        ts_init_sign(&ctx, msg, len, s->ps, sk, rnd(r) & 1 ? h_rng_cb : 0);
        size_t got = 0;
        while (got < want) {
            size_t k = kind == SIGN ? want - got : piece(r, style);
            if (k > want - got) k = want - got;
            unsigned g = ts_sign(sig + got, (unsigned)k, &ctx);
            calls++;
            if (g != k) { viol("sign", "%s: %u bytes of %zu wanted at offset %zu", p->name, g, k, got); return; }
            got += k;
        }
        judge(p, kind, count(), sign_cost(p, c, trees, layers), calls);
        return;
    }
    size_t sl = ref_siglen(p);
    if (kind == LONG_SIGN || kind == LONG_VERIFY) {
        if (ukec + u256 + u512 == 0) { stat_add("evaluations", 1); distinct(id); return; }
        static uint8_t lmsg[300000];
        size_t ll = rnd_in(r, 200000, sizeof lmsg);
        rnd_fill(r, lmsg, ll);
        if (kind == LONG_SIGN) { /* two passes: the randomiser and the digest */
            rnd_fill(r, sk, 4 * n);
            h_rng_set(opt, sizeof opt);
            zero();
            ts_init_sign(&ctx, lmsg, ll, s->ps, sk, rnd(r) & 1 ? h_rng_cb : 0);
            unsigned g = ts_sign(sig, 2 * n, &ctx);
            uint64_t v = count();
            if (g != 2 * n) { viol("sign", "%s: %u bytes of %u wanted", p->name, g, 2 * n); return; }
            judge_by(p, kind, v, 2 * pass_cost(p, ll), PASS_FACTOR, 2 * start_cost(p) + 8 * c.f);
            return;
        }
        /* one pass: the same junk refused with a long message and with a short one */
        rnd_fill(r, pk, 2 * n);
        rnd_fill(r, sig, sl);
        uint64_t v[2];
        for (int w = 0; w < 2; w++) {
            zero();
            ts_init_verify(&ctx, lmsg, w ? ll : 1, s->ps, pk);
            size_t fed = 0, k = rnd_in(r, n, 8 * n);
            while (fed < sl) {
                size_t m = sl - fed < k ? sl - fed : k;
                if (!ts_update_verify(sig + fed, (unsigned)m, &ctx)) break;
                fed += m;
            }
            (void)ts_verify(&ctx);
            v[w] = count();
        }
        /* the number of chain steps depends on the digits: some hundreds more or less */
        judge_by(p, kind, v[1] > v[0] ? v[1] - v[0] : 0, pass_cost(p, ll), PASS_FACTOR, 5 * sqrt(21.25 * 2 * p->d * (2.0 * n + 3)) * c.f + PER_CALL * (double)(sl / n));
        return;
    }
    if (slow && kind != VERIFY_JUNK && !whole()) kind = VERIFY_JUNK;       /* no quick way to a good signature: the work is the same */
    if (kind == VERIFY_JUNK) {
        rnd_fill(r, pk, 2 * n);
        rnd_fill(r, sig, sl);
    } else {
        h_rng_set(seed, sizeof seed);
        ref_keygen(p, seed, sk);
        memcpy(pk, sk + 2 * n, 2 * n);
        ref_sign(p, sk, opt, msg, len, sig);
    }
    uint64_t calls = 0;
    int style = (int)(rnd(r) % 4), poll = (int)(rnd(r) % 3);
    zero();
    ts_init_verify(&ctx, msg, len, s->ps, pk);
    size_t fed = 0;
    while (fed < sl) {
        size_t k = (id % KINDS) == VERIFY || (id % KINDS) == VERIFY_JUNK ? sl - fed : piece(r, style);
        if (k > sl - fed) k = sl - fed;
        int g = ts_update_verify(sig + fed, (unsigned)k, &ctx);
        calls++;
        fed += k;
        if (!g) break;
        if (poll == 0 || (poll == 1 && fed % 16 == 0)) { (void)ts_verify(&ctx); calls++; }
    }
    int v = ts_verify(&ctx);
    uint64_t ins = count();
    if (kind != VERIFY_JUNK) CHECK(v == 1, "verify", "%s: a good signature is refused", p->name);
    judge(p, kind, ins, verify_cost(p, c, p->d * (2.0 * n + 3) * 8.5), calls);
}
void h_final(void) {}
