/*
 * C14: failures of the random function, enumerated: each of its calls in turn (and all of them), with
 * nothing, half, all or all but one byte of the buffer written before failing; missing arguments;
 * success afterwards.
 */
#include "h.h"
double h_case_cpu_limit = 90;

static struct { const uint8_t *data; size_t used, len; unsigned calls, fail_at; int all, scrib; size_t asked; int closed, late; uint8_t pat; } F;
static int cb(unsigned char *p, size_t n) {
    F.calls++;
    F.asked += n;
    if (F.closed) F.late++;
    if (F.all || F.calls == F.fail_at) {
        size_t m = F.scrib == 0 ? 0 : F.scrib == 1 ? n / 2 : F.scrib == 2 ? n : n - 1;
        for (size_t i = 0; i < m; i++) p[i] = (uint8_t)(F.pat + i * 7);
        return 0;
    }
    for (size_t i = 0; i < n; i++) p[i] = F.used + i < F.len ? F.data[F.used + i] : 0xEE;
    F.used += n;
    return 1;
}
static void arm(const uint8_t *d, size_t n, unsigned at, int all, int scrib, uint8_t pat) {
    memset(&F, 0, sizeof F);
    F.data = d;
    F.len = n;
    F.fail_at = at;
    F.all = all;
    F.scrib = scrib;
    F.pat = pat;
}

/* plan: every set x {keygen, sign} x scribble 4 x variant 2, then arguments */
#define PER 17
uint64_t h_ncases(void) {
    fx_build(2, 1);
    return (uint64_t)h_nsets * PER * (uint64_t)(h_scale >= 1 ? h_scale : 1);
}

static void keygen(const hset *s, rng *r, int scrib, int want_pk) {
    unsigned n = s->r->n;
    const fx *f = fx_get(s, (int)rnd_below(r, 8));
    uint8_t want[128];
    memcpy(want, f->sk, 4 * n);
    gbuf sk = gb_newa(4 * n, (unsigned)rnd_below(r, 16)), pk = gb_newa(2 * n, (unsigned)rnd_below(r, 16));
    uint8_t pk0[64], pat = (uint8_t)rnd(r);
    /* how often the function is called, when it works (done once per set of cases: the slow ones cost) */
    unsigned ncall = 1;
    for (unsigned at = 1; at <= ncall + 1; at++) { /* the last round: it always fails */
        int all = at == ncall + 1;
        rnd_fill(r, sk.p, 4 * n);
        rnd_fill(r, pk.p, 2 * n);
        memcpy(pk0, pk.p, 2 * n);
        arm(want, 3 * n, at, all, scrib, pat);
        int v = ts_gen_key(sk.p, want_pk ? pk.p : 0, s->ps, cb);
        stat_add("evaluations", 1);
        stat_add("failures injected", 1);
        if (F.calls < at && !all) break;
        CHECK(v == 0, "keygen-verdict", "%s: the random function failed (call %u, %d) and key generation returned %d", s->r->name, at, scrib, v);
        CHECK(!memcmp(pk.p, pk0, 2 * n), "keygen-public", "%s: key generation failed and wrote a public key (scribble %d)", s->r->name, scrib);
        CHECK(gb_ok(&sk) && gb_ok(&pk), "overrun", "%s: failing key generation writes outside the key buffers", s->r->name);
        /* no usable key from a failed call: the root must not have been derived */
        if (!h_is_s(s->r)) {
            uint8_t full[128];
            ref_keygen(s->r, sk.p, full);
            CHECK(memcmp(full + 3 * n, sk.p + 3 * n, n), "keygen-key", "%s: key generation failed but left a complete key (scribble %d)", s->r->name, scrib);
        }
        if (h_is_s(s->r) && at == 1 && !(scrib == 0 && want_pk)) continue; /* one success per slow set is enough */
        if (all) break;
        arm(want, 3 * n, 0, 0, 0, 0);
        v = ts_gen_key(sk.p, want_pk ? pk.p : 0, s->ps, cb);
        if (F.calls > ncall) ncall = F.calls;
        CHECK(v == 1 && !memcmp(sk.p, want, 4 * n) && (!want_pk || !memcmp(pk.p, want + 2 * n, 2 * n)), "keygen-retry",
              "%s: key generation after a failure returned %d and key %s", s->r->name, v, hex(sk.p, 4 * n));
        CHECK(F.asked == 3 * n, "request", "%s: key generation asks for %zu bytes", s->r->name, F.asked);
        stat_add("successes after a failure", 1);
    }
    distinct(hash64(s->r->name, strlen(s->r->name), (uint64_t)(scrib * 2 + want_pk)));
    if (scrib == 2) sample("%s: key generation with its random function failing after writing everything, then working", s->r->name);
    gb_free(&sk);
    gb_free(&pk);
}

static void sign(const hset *s, rng *r, int scrib, int all) {
    unsigned n = s->r->n, sl = ref_siglen(s->r), done = 0;
    const fx *f = fx_get(s, (int)rnd_below(r, 8));
    uint8_t sk[128], want[SIGMAX], opt[32];
    static uint8_t out[SIGMAX];
    memcpy(sk, f->sk, 4 * n);
    size_t ml = h_msglen(r);
    uint8_t *m = malloc(ml + 1);
    h_msg_fill(r, m, ml);
    rnd_fill(r, opt, 32);
    /* deterministic: the public seed in place of the randomiser */
    unsigned cap = h_is_s(s->r) ? n * (2 + s->r->t) : rnd_below(r, 3) ? n * (1 + 2 * (s->r->t + 1)) : sl;
    ref_sign_prefix(s->r, sk, sk + 2 * n, m, ml, want, cap);
    struct ts_context *c = malloc(sizeof *c);
    for (int round = 0; round < 3; round++) { /* failing, without function, working */
        rnd_fill(r, c, sizeof *c);
        arm(opt, n, 1, all, scrib, (uint8_t)rnd(r));
        if (round == 2) {
            arm(opt, n, 0, 0, 0, 0);
            ref_sign_prefix(s->r, sk, opt, m, ml, want, cap);
        }
        ts_init_sign(c, m, ml, s->ps, sk, round == 1 ? 0 : cb);
        size_t asked = F.asked;
        unsigned calls = F.calls;
        F.closed = 1;
        for (done = 0; done < cap;) {
            unsigned k = h_chunk(r, 5, n);
            if (k > cap - done) k = cap - done;
            unsigned g = ts_sign(out + done, k, c);
            done += g;
            if (g != k) break;
        }
        stat_add("evaluations", 1);
        if (!round) stat_add("failures injected", 1);
        CHECK(done == cap && !memcmp(out, want, cap), round == 2 ? "sign-after" : "sign-fallback",
              "%s: %s does not give the %s signature (message %zu bytes): R %s, expected %s", s->r->name,
              round == 0 ? "signing with a failing random function" : round == 1 ? "signing without a random function" : "signing with a working random function after a failure",
              round == 2 ? "randomised" : "deterministic", ml, hex(out, n), hex(want, n));
        CHECK(!F.late, "late-call", "%s: the random function is called %d times after signing has started", s->r->name, F.late);
        if (round == 2) CHECK(asked == n, "request", "%s: signing asks for %zu bytes in %u calls", s->r->name, asked, calls);
        if (round == 1) CHECK(calls == 0, "request", "%s: a random function not given is called", s->r->name);
    }
    distinct(hash64(m, ml, (uint64_t)scrib * 2 + (uint64_t)all));
    if (scrib == 1) sample("%s: signing a %zu-byte message with its random function failing half way", s->r->name, ml);
    free(m);
    free(c);
}

static void arguments(const hset *s, rng *r) {
    unsigned n = s->r->n;
    uint8_t sk[128], pk[64], sk0[128], pk0[64];
    const fx *f = fx_get(s, 0);
    for (int mask = 1; mask < 8; mask++)
        for (int wp = 0; wp < 2; wp++) {
            rnd_fill(r, sk0, sizeof sk0);
            rnd_fill(r, pk0, sizeof pk0);
            memcpy(sk, sk0, sizeof sk);
            memcpy(pk, pk0, sizeof pk);
            arm(f->sk, 3 * n, 0, 0, 0, 0);
            int v = ts_gen_key(mask & 1 ? 0 : sk, wp ? pk : 0, mask & 2 ? 0 : s->ps, mask & 4 ? 0 : cb);
            stat_add("evaluations", 1);
            stat_add("missing arguments", 1);
            CHECK(v == 0, "args", "%s: key generation with%s%s%s missing returned %d", s->r->name, mask & 1 ? " private key" : "",
                  mask & 2 ? " parameter set" : "", mask & 4 ? " random function" : "", v);
            CHECK(!memcmp(pk, pk0, sizeof pk), "args-public", "%s: key generation with a missing argument (%d) wrote a public key", s->r->name, mask);
            CHECK(!memcmp(sk + 3 * n, sk0 + 3 * n, n), "args-key", "%s: key generation with a missing argument (%d) wrote a root", s->r->name, mask);
        }
    distinct(hash64(s->r->name, strlen(s->r->name), 1234));
}

void h_case(uint64_t id, rng *r) {
    const hset *s = &h_sets[(h_nsets - 1 - id % (uint64_t)h_nsets)];
    int v = (int)(id / (uint64_t)h_nsets) % PER;
    if (v < 8) keygen(s, r, v & 3, v >> 2);
    else if (v < 16) sign(s, r, v & 3, (v >> 2) & 1);
    else arguments(s, r);
}
