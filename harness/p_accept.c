/* C04: every honest signature is accepted, however it is cut up, and success is reported only at its end. */
#define _GNU_SOURCE
#include <sys/mman.h>
#include "h.h"
double h_case_cpu_limit = 90;
static int endtoend, chosen;

uint64_t h_ncases(void) {
    endtoend = !strcmp(h_mode, "own");
    chosen = !strcmp(h_mode, "chosen");
    if (chosen) {
        uint8_t d[64] = {0};
        return h_chosen(&h_sets[0], d) ? h_plan(16, 2) : 0;
    }
    if (endtoend) return h_plan(10, 1.6);
    fx_build(3, 1);
    return h_plan(40, 24);
}

static void accept(rng *r, const hset *s, const uint8_t *pk, const uint8_t *msg, size_t mlen, const uint8_t *sig, int style, const char *who, const uint8_t *sk) {
    unsigned n = s->r->n, sl = ref_siglen(s->r);
    gbuf m = gb_newa(mlen, (unsigned)rnd_below(r, 16)), key = gb_newa(2 * n, (unsigned)rnd_below(r, 16));
    memcpy(m.p, msg, mlen);
    memcpy(key.p, pk, 2 * n);
    struct ts_context *c = malloc(sizeof *c);
    rnd_fill(r, c, sizeof *c);
    ts_init_verify(c, mlen || rnd(r) & 1 ? m.p : 0, mlen, s->ps, key.p); /* an empty message need not be anywhere */
    unsigned done = 0, calls = 0, polls = 0, cut = (unsigned)rnd_below(r, sl + 1);
    uint64_t trace = (uint64_t)style;
    while (done < sl) {
        unsigned want = style < 8 ? h_chunk(r, style, n) : style == 8 ? (calls ? sl : cut) : (unsigned)rnd_in(r, 254, 258);
        if (want > sl - done) want = sl - done;
        gbuf piece = gb_newa(want, (unsigned)rnd_below(r, 16));
        memcpy(piece.p, sig + done, want);
        int ok = ts_update_verify(piece.p, want, c);
        done += want;
        calls++;
        int same = !memcmp(piece.p, sig + done - want, want) && gb_ok(&piece);
        memset(piece.p, 0xEE, want); /* the piece need not live on */
        gb_free(&piece);
        if (!ok) { viol("accept-update", "%s %s: call %u refused bytes %u..%u of an honest signature (style %d); sk %s msg %s", s->r->name, who, calls, done - want, done, style, hex(sk, 4 * n), hex(msg, mlen)); break; }
        CHECK(same, "accept-input", "%s: the signature piece was changed", s->r->name);
        if (done < sl && (style != 0 || done % 7 == 0)) {
            polls++;
            if (ts_verify(c)) { viol("accept-early", "%s %s: success after %u of %u bytes", s->r->name, who, done, sl); break; }
        }
        trace = hash64(&want, sizeof want, trace);
        if (style == 3 && calls % 50 == 0) (void)ts_update_verify(calls % 100 ? sig : 0, 0, c);
    }
    if (done == sl) {
        int v = ts_verify(c), v2 = ts_verify(c);
        CHECK(v == 1 && v2 == 1, "accept-final", "%s %s: honest signature refused (%d, %d), chunk style %d, %zu-byte message; sk %s msg %s", s->r->name, who, v, v2, style, mlen, hex(sk, 4 * n), hex(msg, mlen));
        (void)ts_update_verify(done % 2 ? 0 : sig, 0, c);
        CHECK(ts_verify(c) == 1, "accept-final", "%s: an empty update after the end turned acceptance into refusal", s->r->name);
    }
    CHECK(!memcmp(m.p, msg, mlen) && !memcmp(key.p, pk, 2 * n) && gb_ok(&m) && gb_ok(&key), "accept-input", "%s: an input was changed", s->r->name);
    stat_add("evaluations", 1);
    stat_add("updates", calls);
    stat_add("polls before the end", polls);
    distinct(hash64(&trace, 8, hash64(pk, 2 * n, 1)));
    free(c);
    gb_free(&m);
    gb_free(&key);
}

void h_case(uint64_t id, rng *r) {
    int k;
    const hset *s = h_plan_set(id, &k);
    unsigned n = s->r->n;
    if (chosen) { /* the message hash is replaced: honest signatures at extreme positions of the hypertree */
        uint8_t dg[64], seed[96], sk[128], roots[32 * 40];
        static uint8_t sig[SIGMAX];
        ref_pos p;
        rnd_fill(r, seed, 96);
        rnd_fill(r, sig, n);
        h_extreme_digest(r, s->r, (unsigned)k + 7u * (unsigned)(h_seed % 24), dg);
        ref_parse_digest(s->r, dg, &p);
        memcpy(sk, seed, 3 * n);
        uint8_t fv[32];
        int force = k & 1;
        if (force) h_extreme_value(r, n, (unsigned)k / 2, fv);
        hset c = *s;
        if (force) { /* does the library compute the FORS public key where it can be replaced? */
            h_force_fors_pk(fv, n);
            c.ps = h_chosen(s, dg);
            ref_sign_at(s->r, sk, &p, sig, ref_siglen(s->r));
            (void)h_lib_verify(r, &c, sk + 2 * n, dg, 3, sig, ref_siglen(s->r) / 2 + n, 5, 0);
            force = h_forced() == 1;
        }
        ref_forced_fors_pk = force ? fv : 0;
        h_force_fors_pk(force ? fv : 0, n);
        stat_add("one-time signatures of chosen values", (uint64_t)force);
        ref_sign_at(s->r, sk, &p, sig, ref_siglen(s->r));
        ref_walk_at(s->r, sk + 2 * n, sig, &p, roots);
        memcpy(sk + 3 * n, roots + s->r->d * n, n);
        ref_forced_fors_pk = 0;
        c.ps = h_chosen(s, dg);
        accept(r, &c, sk + 2 * n, dg, rnd_below(r, 64), sig, k % 10, "signature at an extreme position,", sk);
        h_force_fors_pk(0, 0);
        stat_add("signatures at chosen extreme positions", 1);
        if (k == 2) sample("%s: signature at tree %llx leaf %u accepted", s->r->name, (unsigned long long)p.tree, p.leaf);
        return;
    }
    if (!endtoend) {
        const fx *f = fx_get(s, (int)(rnd(r) & 0xff));
        for (int i = 0; i < 3; i++) accept(r, s, f->pk, f->msg, f->mlen, f->sig, (k * 3 + i) % 10, "reference signature,", f->sk);
        if (k < 2) sample("%s: reference signature of a %zu-byte message accepted in chunk styles %d..%d", s->r->name, f->mlen, k * 3 % 10, (k * 3 + 2) % 10);
        return;
    }
    /* key pair, signature and verification all by the library */
    static uint8_t msg[8192], sig[SIGMAX];
    uint8_t seed[96], sk[128], pk[64], opt[32];
    size_t mlen = h_msglen(r);
    h_msg_fill(r, msg, mlen);
    h_seed_material(r, s->r, seed);
    rnd_fill(r, opt, 32);
    h_rng_set(seed, 96);
    CHECK(ts_gen_key(sk, pk, s->ps, h_rng_cb) == 1, "accept-keygen", "%s: key generation failed", s->r->name);
    unsigned got = h_lib_sign(r, s, sk, msg, mlen, (rnd(r) & 1) ? opt : 0, (int)rnd_below(r, H_CHUNK_STYLES), sig, ref_siglen(s->r));
    CHECK(got == ref_siglen(s->r), "accept-sign", "%s: signature of %u bytes", s->r->name, got);
    for (int i = 0; i < 4; i++) accept(r, s, pk, msg, mlen, sig, (int)rnd_below(r, 10), "own signature,", sk);
    if (k < 1) sample("%s: key pair, %zu-byte message, signature, 4 verifications by the library; seed %s", s->r->name, mlen, hex(seed, 3 * n));
}
