/*
 * C02: the signature is the specification's function of (private key, message, randomiser).
 * mode full: whole signatures; mode prefix: every message length, up to a few blocks, R and the first
 * FORS values; mode grind: randomisers searched for, so that positions in the hypertree are extreme;
 * mode chosen: the message hash is replaced, so that any position can be had (64 bits cannot be searched).
 */
#include "h.h"

static int full, prefix, grind, chosen;
double h_case_cpu_limit = 90;
static uint8_t keys[12][3][128];
static int nprefix;

static void mk_keys(void) {
    for (int i = 0; i < h_nsets; i++)
        for (int k = 0; k < 3; k++) {
            rng r;
            uint8_t seed[96];
            rng_init(&r, h_seed, 77 + (uint64_t)k, (uint64_t)i);
            h_seed_material(&r, h_sets[i].r, seed);
            /* the root need not belong to the seed for the signature to be a function of the key */
            memcpy(keys[i][k], seed, 3 * h_sets[i].r->n);
            if (k == 0) {
                if (!h_is_s(h_sets[i].r)) ref_keygen(h_sets[i].r, seed, keys[i][k]);
                else rnd_fill(&r, keys[i][k] + 3 * h_sets[i].r->n, h_sets[i].r->n);
            } else
                rnd_fill(&r, keys[i][k] + 3 * h_sets[i].r->n, h_sets[i].r->n);
        }
}

uint64_t h_ncases(void) {
    full = !strcmp(h_mode, "full");
    prefix = !strcmp(h_mode, "prefix");
    grind = !strcmp(h_mode, "grind");
    chosen = !strcmp(h_mode, "chosen");
    mk_keys();
    if (chosen) {
        uint8_t d[64] = {0};
        return h_chosen(&h_sets[0], d) ? h_plan(16, h_thorough ? 1 : 0) : 0;
    }
    if (full) return h_plan(10, 2);
    if (grind) return h_plan(24, 0);
    nprefix = (int)(1500 * h_scale);
    return (uint64_t)nprefix;
}

static void compare(const hset *s, const uint8_t *sk, const uint8_t *msg, size_t mlen, const uint8_t *opt, unsigned want,
                    rng *r, const char *why) {
    static uint8_t exp[SIGMAX];
    unsigned n = s->r->n, sl = ref_siglen(s->r);
    if (want > sl) want = sl;
    /* the randomiser the signer must use: the caller's bytes, or PK.seed when there is no random function */
    const uint8_t *eff = opt ? opt : sk + 2 * n;
    ref_sign_prefix(s->r, sk, eff, msg, mlen, exp, want);
    gbuf out = gb_newa(want, (unsigned)rnd_below(r, 16)), m = gb_newa(mlen, (unsigned)rnd_below(r, 16)),
         key = gb_newa(4 * n, (unsigned)rnd_below(r, 16));
    memcpy(m.p, msg, mlen);
    memcpy(key.p, sk, 4 * n);
    memset(out.p, 0x77, want);
    unsigned got = h_lib_sign(r, s, key.p, m.p, mlen, opt, (int)rnd_below(r, H_CHUNK_STYLES), out.p, want);
    stat_add("signature bytes compared with the specification", want);
    CHECK(got == want, "sign-count", "%s: %u bytes came out instead of %u", s->r->name, got, want);
    unsigned i = 0;
    while (i < want && out.p[i] == exp[i]) i++;
    CHECK(i == want, "sign-bytes", "%s %s: message of %zu bytes, %s: first difference at byte %u of %u (block %u): %s instead of %s; sk %s opt %s msg %s",
          s->r->name, why, mlen, opt ? "randomised" : "deterministic", i, sl, i / n, hex(out.p + i / n * n, n), hex(exp + i / n * n, n), hex(sk, 4 * n),
          hex(eff, n), hex(msg, mlen));
    CHECK(!memcmp(m.p, msg, mlen) && !memcmp(key.p, sk, 4 * n), "sign-input", "%s: an input was changed", s->r->name);
    CHECK(gb_ok(&out) && gb_ok(&m) && gb_ok(&key), "sign-bounds", "%s: wrote outside a buffer", s->r->name);
    if (opt) CHECK(!h_rs.overrun, "sign-entropy", "%s: asked for more than n random bytes", s->r->name);
    distinct(hash64(exp, want, want));
    gb_free(&out);
    gb_free(&m);
    gb_free(&key);
}

void h_case(uint64_t id, rng *r) {
    static uint8_t msg[8192];
    uint8_t opt[32], sk[128];
    if (full) {
        int k;
        const hset *s = h_plan_set(id, &k);
        unsigned n = s->r->n;
        size_t mlen = h_msglen(r);
        h_msg_fill(r, msg, mlen);
        h_seed_material(r, s->r, sk);
        if (k & 1) rnd_fill(r, sk + 3 * n, n); /* a root that need not match the seed */
        else ref_keygen(s->r, sk, sk);
        int det = (k & 3) == 0;
        h_opt_fill(r, sk, n, opt);
        compare(s, sk, msg, mlen, det ? 0 : opt, SIGMAX, r, "full");
        stat_add("evaluations", 1);
        if (k < 2) sample("%s full signature, %zu-byte message %s, %s, sk %s", s->r->name, mlen, hex(msg, mlen), det ? "deterministic" : "randomised", hex(sk, 4 * n));
    } else if (chosen) {
        int k;
        const hset *s = h_plan_set(id, &k);
        const ref_ps *ps = s->r;
        unsigned n = ps->n, sl = ref_siglen(ps);
        const uint8_t *key = keys[s - h_sets][k % 3];
        uint8_t dg[64];
        static uint8_t exp[SIGMAX], out[SIGMAX];
        ref_pos p;
        size_t mlen = rnd_below(r, 40);
        h_msg_fill(r, msg, mlen);
        rnd_fill(r, opt, 32);
        h_extreme_digest(r, ps, (unsigned)k + 7u * (unsigned)(h_seed % 24), dg);
        ref_parse_digest(ps, dg, &p);
        ref_R(ps, key, opt, msg, mlen, exp);
        /* in half of the cases the value signed by the first one-time key is chosen as well: extreme digits and checksums */
        uint8_t fv[32];
        int force = k & 1;
        if (force) h_extreme_value(r, n, (unsigned)k / 2, fv);
        h_force_fors_pk(force ? fv : 0, n);
        hset c = *s;
        c.ps = h_chosen(s, dg);
        memset(out, 0x77, sl);
        unsigned got = h_lib_sign(r, &c, key, msg, mlen, opt, (int)rnd_below(r, H_CHUNK_STYLES), out, sl), i = 0;
        if (force && h_forced() != 1) force = 0; /* the library does it in another way */
        stat_add("one-time signatures of chosen values", (uint64_t)force);
        ref_forced_fors_pk = force ? fv : 0;
        ref_sign_at(ps, key, &p, exp, sl);
        ref_forced_fors_pk = 0;
        h_force_fors_pk(0, 0);
        CHECK(got == sl, "sign-count", "%s: %u bytes came out instead of %u at tree %llx leaf %u", ps->name, got, sl, (unsigned long long)p.tree, p.leaf);
        while (i < sl && out[i] == exp[i]) i++;
        CHECK(i == sl, "sign-bytes", "%s at tree %llx leaf %u, FORS indices %u %u ..: first difference at byte %u of %u (block %u): %s instead of %s; sk %s digest %s value signed %s", ps->name,
              (unsigned long long)p.tree, p.leaf, p.fors[0], p.fors[1], i, sl, i / n, hex(out + i / n * n, n), hex(exp + i / n * n, n), hex(key, 4 * n), hex(dg, ref_digest_len(ps)), force ? hex(fv, n) : "natural");
        distinct(hash64(exp, sl, 5));
        stat_add("evaluations", 1);
        stat_add("signatures at chosen extreme positions", 1);
        stat_add("signature bytes compared with the specification", sl);
        if (k == 2) sample("%s signature at tree %llx leaf %u", ps->name, (unsigned long long)p.tree, p.leaf);
    } else if (prefix) {
        /* every length in turn; all sets and both signing styles at each length */
        size_t mlen = id;
        for (int i = 0; i < h_nsets; i++) {
            const hset *s = &h_sets[i];
            unsigned n = s->r->n;
            h_msg_fill(r, msg, mlen);
            int k = (int)rnd_below(r, 3);
            h_opt_fill(r, keys[i][k], n, opt);
            compare(s, keys[i][k], msg, mlen, (rnd(r) & 1) ? opt : 0, h_is_s(s->r) ? 2 * n : 2 * n + (unsigned)rnd_below(r, 6) * n, r, "prefix");
            stat_add("evaluations", 1);
        }
        if (id % 97 == 0) sample("message length %zu: R and first FORS values, %d sets", mlen, h_nsets);
    } else {
        /* choose the randomiser so that the position in the hypertree is extreme, then compare everything */
        int k;
        const hset *s = h_plan_set(id, &k);
        const ref_ps *ps = s->r;
        unsigned n = ps->n;
        const uint8_t *key = keys[s - h_sets][k % 3];
        size_t mlen = rnd_below(r, 40);
        h_msg_fill(r, msg, mlen);
        ref_pos p;
        uint8_t R[32];
        unsigned lmask = (1u << ps->hm) - 1, tmask = (1u << ps->t) - 1;
        int what = k % 12, hit = 0;
        static const char *names[12] = {"leaf 0", "last leaf", "lowest tree bits 0", "lowest tree bits 1", "highest tree bits 0",
                                        "highest tree bits 1", "first FORS index 0", "first FORS index maximal", "last FORS index 0",
                                        "last FORS index maximal", "R starts with 0", "two equal FORS indices at 0"};
        for (int t = 0; t < 200000 && !hit; t++) {
            rnd_fill(r, opt, 32);
            ref_R(ps, key, opt, msg, mlen, R);
            ref_position(ps, key + 2 * n, R, msg, mlen, &p);
            unsigned tb = ps->h - ps->hm;
            uint64_t low = p.tree & 63, high = (p.tree >> (tb - 6)) & 63;
            switch (what) {
            case 0: hit = p.leaf == 0 && p.fors[1] == 0; break;
            case 1: hit = p.leaf == lmask && p.fors[1] == tmask; break;
            case 2: hit = low == 0 && p.leaf == 0; break;
            case 3: hit = low == 63 && p.leaf == lmask; break;
            case 4: hit = high == 0; break;
            case 5: hit = high == 63; break;
            case 6: hit = p.fors[0] == 0; break;
            case 7: hit = p.fors[0] == tmask; break;
            case 8: hit = p.fors[ps->k - 1] == 0; break;
            case 9: hit = p.fors[ps->k - 1] == tmask; break;
            case 10: hit = R[0] == 0; break;
            default: hit = p.fors[0] == 0 && p.fors[1] == 0; break;
            }
        }
        stat_add("evaluations", 1);
        stat_add("chosen extreme positions reached", (uint64_t)hit);
        compare(s, key, msg, mlen, opt, SIGMAX, r, names[what]);
        if (k < 12 && id % 5 == 0) sample("%s signature at %s: tree %llx leaf %u", ps->name, names[what], (unsigned long long)p.tree, p.leaf);
    }
}
