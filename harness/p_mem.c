/*
 * C08: permitted call sequences with honest and hostile data, run under sanitizers.  Every object is
 * its own heap block of exactly the size the interface names (so its ends are guarded), at varying
 * alignment; under MemorySanitizer contexts start out uninitialised and results must be initialised.
 */
#include "h.h"
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define POISON(p, n) __msan_poison(p, n)
#define MUST_BE_INIT(p, n) __msan_check_mem_is_initialized(p, n)
#define IS_MSAN 1
#endif
#endif
#ifndef IS_MSAN
#define IS_MSAN 0
#define POISON(p, n) memset(p, 0xBD, n)
#define MUST_BE_INIT(p, n) ((void)0)
#endif
double h_case_cpu_limit = 90;

enum { KEYGEN, SIGN, VERIFY_HONEST, VERIFY_HOSTILE, HASHES, NKIND };
static int slow_sign;

uint64_t h_ncases(void) {
    slow_sign = strstr(h_mode, "slow") != 0;
    uint64_t t = h_plan(60, slow_sign ? 20 : 14);
    return t;
}

static struct ts_context *newctx(void) {
    struct ts_context *c = malloc(sizeof *c);
    POISON(c, sizeof *c);
    return c;
}

static gbuf copy(rng *r, const void *p, size_t n) {
    gbuf g = gb_newa(n, (unsigned)rnd_below(r, 16));
    memcpy(g.p, p, n);
    return g;
}

static unsigned do_sign(rng *r, const hset *s, const uint8_t *sk, gbuf m, uint8_t *out, unsigned cap, int style) {
    unsigned n = s->r->n, done = 0;
    uint8_t opt[32];
    gbuf key = copy(r, sk, 4 * n);
    struct ts_context *c = newctx();
    rnd_fill(r, opt, 32);
    h_rng_set(opt, n);
    if (rnd_below(r, 8) == 0) h_rs.fail_at = 1, h_rs.scribble = (int)rnd_below(r, 3);
    ts_init_sign(c, m.p, m.n, s->ps, key.p, rnd_below(r, 3) ? h_rng_cb : 0);
    while (done < cap) {
        unsigned want = h_chunk(r, style, n);
        if (want > cap - done) want = cap - done;
        gbuf d = gb_newa(want, (unsigned)rnd_below(r, 16));
        unsigned got = ts_sign(d.p, want, c);
        if (got > want) { viol("count", "%s: made %u of %u", s->r->name, got, want); break; }
        MUST_BE_INIT(d.p, got);
        memcpy(out + done, d.p, got);
        gb_free(&d);
        done += got;
        stat_add("evaluations", 1);
        if (got < want) break;
    }
    free(c);
    gb_free(&key);
    return done;
}

static int do_verify(rng *r, const hset *s, const uint8_t *pk, gbuf m, const uint8_t *sig, size_t len, int style) {
    unsigned n = s->r->n;
    gbuf key = copy(r, pk, 2 * n);
    struct ts_context *c = newctx();
    size_t d = 0;
    ts_init_verify(c, m.p, m.n, s->ps, key.p);
    while (d < len) {
        size_t k = h_chunk(r, style, n);
        if (k > len - d) k = len - d;
        gbuf g = copy(r, sig + d, k);
        int u = ts_update_verify(g.p, (unsigned)k, c);
        gb_free(&g);
        d += k;
        stat_add("evaluations", 1);
        if (!u && rnd_below(r, 4) == 0) break;
        if (rnd_below(r, 64) == 0) (void)ts_verify(c);
        if (rnd_below(r, 32) == 0) (void)ts_update_verify(0, 0, c); /* nothing, which need not be anywhere */
    }
    int v = ts_verify(c);
    (void)ts_sign((uint8_t *)&d, 1, c); /* inert */
    free(c);
    gb_free(&key);
    return v;
}

static void hashes(rng *r) {
    static const unsigned lens[] = {0, 1, 55, 56, 57, 63, 64, 65, 111, 112, 113, 119, 120, 127, 128, 129, 135, 136, 137, 200, 272, 1000};
    size_t len = rnd(r) & 1 ? lens[rnd_below(r, sizeof lens / sizeof *lens)] : rnd_below(r, 700);
    gbuf m = gb_newa(len, (unsigned)rnd_below(r, 16));
    rnd_fill(r, m.p, len);
    size_t cut = rnd_below(r, len + 1);
    gbuf a = copy(r, m.p, cut), b = copy(r, m.p + cut, len - cut);
    {
        SHA256_CTX *c = malloc(sizeof *c);
        POISON(c, sizeof *c);
        unsigned t = 4 * (unsigned)rnd_in(r, 1, 8);
        gbuf o = gb_newa(t, (unsigned)rnd_below(r, 16));
        ts_SHA256_init(c);
        ts_SHA256_update(c, a.p, a.n);
        ts_SHA256_update(c, b.p, b.n);
        ts_SHA256_final_trunc(o.p, c, t);
        MUST_BE_INIT(o.p, t);
        gb_free(&o);
        free(c);
    }
    {
        SHA512_CTX *c = malloc(sizeof *c);
        POISON(c, sizeof *c);
        unsigned t = 8 * (unsigned)rnd_in(r, 1, 8);
        gbuf o = gb_newa(t, (unsigned)rnd_below(r, 16));
        ts_SHA512_init(c);
        ts_SHA512_update(c, a.p, a.n);
        ts_SHA512_update(c, b.p, b.n);
        ts_SHA512_final_trunc(o.p, c, t);
        MUST_BE_INIT(o.p, t);
        gb_free(&o);
        free(c);
    }
    {
        SHAKE256_CTX *c = malloc(sizeof *c);
        POISON(c, sizeof *c);
        gbuf o = gb_newa(rnd_below(r, 300), (unsigned)rnd_below(r, 16));
        size_t oc = rnd_below(r, o.n + 1);
        ts_shake256_inc_init(c);
        ts_shake256_inc_absorb(c, a.p, a.n);
        ts_shake256_inc_absorb(c, b.p, b.n);
        ts_shake256_inc_finalize(c);
        ts_shake256_inc_squeeze(o.p, oc, c);
        ts_shake256_inc_squeeze(o.p + oc, o.n - oc, c);
        MUST_BE_INIT(o.p, o.n);
        gb_free(&o);
        free(c);
    }
    gb_free(&a);
    gb_free(&b);
    gb_free(&m);
    stat_add("evaluations", 3);
}

void h_case(uint64_t id, rng *r) {
    int k;
    const hset *s = h_plan_set(id, &k);
    const ref_ps *ps = s->r;
    unsigned n = ps->n, sl = ref_siglen(ps);
    int slow = h_is_s(ps), kind = k % NKIND, style = (int)rnd_below(r, H_CHUNK_STYLES);
    uint8_t seed[96], sk[128];
    static uint8_t out[SIGMAX + 70000];
    h_seed_material(r, ps, seed);
    memcpy(sk, seed, 3 * n);
    rnd_fill(r, sk + 3 * n, n);
    size_t mlen = h_msglen(r);
    gbuf m = gb_newa(mlen, (unsigned)rnd_below(r, 16));
    h_msg_fill(r, m.p, mlen);
    distinct(hash64(seed, 96, (uint64_t)kind * 1000003 + (uint64_t)style));
    switch (kind) {
    case KEYGEN: {
        gbuf a = gb_newa(4 * n, (unsigned)rnd_below(r, 16)), b = gb_newa(2 * n, (unsigned)rnd_below(r, 16));
        POISON(a.p, 4 * n);
        POISON(b.p, 2 * n);
        h_rng_set(seed, 3 * n);
        if (slow && !slow_sign && k > 1) h_rs.fail_at = 1;
        int ok = ts_gen_key(a.p, rnd(r) & 1 ? b.p : 0, s->ps, h_rng_cb);
        if (ok) MUST_BE_INIT(a.p, 4 * n);
        gb_free(&a);
        gb_free(&b);
        stat_add("evaluations", 1);
        stat_add("key generations", 1);
        break;
    }
    case SIGN: {
        unsigned cap = slow && (!slow_sign || k > 5) ? 4 * n : sl;
        unsigned got = do_sign(r, s, sk, m, out, cap, style);
        CHECK(got == cap, "count", "%s: %u bytes of %u", ps->name, got, cap);
        stat_add("signatures", 1);
        break;
    }
    case VERIFY_HONEST:
        if (!slow || (slow_sign && k < 5)) {
            /* the signature's own path: signing with a root that does not match is fine for memory, so is refusing it */
            do_sign(r, s, sk, m, out, sl, 5);
            do_verify(r, s, sk + 2 * n, m, out, sl, style);
            stat_add("verifications", 1);
            break;
        } /* fall through */
    case VERIFY_HOSTILE:
        for (int t = 0; t < (slow ? 12 : 6); t++) {
            size_t len = rnd_below(r, 4) ? sl : rnd_below(r, 3) ? sl + rnd_below(r, 5 * n) : rnd_below(r, sl);
            if (rnd_below(r, 30) == 0) len = sl + 65536;
            switch (rnd_below(r, 4)) {
            case 0: memset(out, 0, len); break;
            case 1: memset(out, 0xff, len); break;
            default: rnd_fill(r, out, len); break;
            }
            if (rnd(r) & 1) rnd_fill(r, out, n);
            do_verify(r, s, sk + 2 * n, m, out, len, (style + t) % H_CHUNK_STYLES);
            stat_add("hostile signatures", 1);
        }
        break;
    default:
        for (int t = 0; t < 40; t++) hashes(r);
        stat_add("hash computations", 120);
        break;
    }
    if (k < NKIND && id % 3 == 0) sample("%s: %s, %zu-byte message, chunk style %d", ps->name, kind == 0 ? "key generation" : kind == 1 ? "signing" : kind == 2 ? "signing and verification" : kind == 3 ? "hostile signatures" : "hash primitives", mlen, style);
    gb_free(&m);
}
