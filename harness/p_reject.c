/*
 * C05: a changed message, key or signature is refused (the reference verifier is the oracle).
 * mode flip: systematic single changes; mode near: signatures whose path ends in a root that differs
 * from the public key's in a chosen way only.
 */
#include "h.h"
double h_case_cpu_limit = 60;
static int near;
static int step;
#define BATCH 24

static unsigned nmut(const ref_ps *ps) { return ref_siglen(ps) / ps->n + 8 * ps->n + 16 * ps->n + 120; }
static uint64_t first[13];

uint64_t h_ncases(void) {
    near = !strcmp(h_mode, "near");
    if (near) return h_plan(36, 4);
    fx_build(3, 2);
    step = (int)(1 / h_scale + 0.5);
    if (step < 1) step = 1;
    uint64_t t = 0;
    for (int i = 0; i < h_nsets; i++) {
        first[i] = t;
        t += (nmut(h_sets[i].r) + BATCH * step - 1) / (BATCH * step);
    }
    first[h_nsets] = t;
    return t;
}

static int expect_refusal(rng *r, const hset *s, const uint8_t *pk, const uint8_t *msg, size_t mlen, const uint8_t *sig, size_t sl, const char *what, unsigned a, unsigned b) {
    gbuf m = gb_newa(mlen, (unsigned)rnd_below(r, 16)), g = gb_newa(sl, 0), key = gb_newa(2 * s->r->n, (unsigned)rnd_below(r, 16));
    memcpy(m.p, msg, mlen);
    memcpy(g.p, sig, sl);
    memcpy(key.p, pk, 2 * s->r->n);
    vres v = h_lib_verify(r, s, key.p, m.p, mlen, g.p, sl, 1 + (int)rnd_below(r, 7) % 7, (int)rnd_below(r, 2));
    stat_add("evaluations", 1);
    int bad = 0;
    if ((v.final || v.early) && !ref_verify(s->r, pk, msg, mlen, sig, sl)) {
        bad = 1;
        viol("accepted-forgery", "%s: %s (%u, %u) was accepted; public key %s, %zu-byte message %s", s->r->name, what, a, b, hex(pk, 2 * s->r->n), mlen, hex(msg, mlen));
    }
    if (!v.final && v.all_updates_ok && sl == ref_siglen(s->r)) {
        bad = 1;
        viol("unreported", "%s: %s (%u, %u) was refused in the end, but no update reported a failure; public key %s, %zu-byte message %s", s->r->name, what, a, b, hex(pk, 2 * s->r->n), mlen, hex(msg, mlen));
    }
    if (v.final) stat_add("accepted", 1); else stat_add("refused", 1);
    gb_free(&m);
    gb_free(&g);
    gb_free(&key);
    return !bad;
}

static void flip_case(uint64_t id, rng *r) {
    int si = 0;
    while (id >= first[si + 1]) si++;
    const hset *s = &h_sets[si];
    const ref_ps *ps = s->r;
    unsigned n = ps->n, sl = ref_siglen(ps), nb = sl / n;
    unsigned lo = (unsigned)(id - first[si]) * BATCH * (unsigned)step, hi = lo + BATCH * (unsigned)step;
    static uint8_t sig[SIGMAX + 64], msg[9000];
    if (lo == 0) sample("%s: %u single changes of a valid triple, every %d: all must be refused", ps->name, nmut(ps), step);
    for (unsigned mu = lo + (unsigned)rnd_below(r, step); mu < hi && mu < nmut(ps); mu += (unsigned)step) {
        const fx *f = fx_get(s, (int)(rnd(r) & 0xff)), *g;
        uint8_t pk[64];
        size_t mlen = f->mlen;
        unsigned a = 0, b = 0;
        const char *what = "?";
        memcpy(sig, f->sig, sl);
        memcpy(msg, f->msg, mlen);
        memcpy(pk, f->pk, 2 * n);
        unsigned x = mu;
        if (x < nb) {
            a = x;
            b = (unsigned)rnd_below(r, 8 * n);
            if (rnd_below(r, 16) == 0) b = 7;
            if (rnd_below(r, 16) == 0) b = 8 * n - 1;
            sig[a * n + b / 8] ^= (uint8_t)(1u << (b & 7));
            what = "signature with one bit changed (block, bit)";
        } else if ((x -= nb) < 8 * n) {
            sig[x / 8] ^= (uint8_t)(1u << (x & 7));
            a = x;
            what = "signature with one bit of R changed";
        } else if ((x -= 8 * n) < 16 * n) {
            pk[x / 8] ^= (uint8_t)(1u << (x & 7));
            a = x;
            what = "public key with one bit changed";
        } else {
            x -= 16 * n;
            switch (x % 24) {
            case 0: msg[mlen++] = 0; what = "message with a 0 appended"; break;
            case 1: msg[mlen++] = (uint8_t)rnd(r); what = "message with a byte appended"; break;
            case 2: if (!mlen) { msg[mlen++] = 0x80; } else mlen--; what = "message without its last byte"; break;
            case 3: memmove(msg + 1, msg, mlen); mlen++; msg[0] = 0; what = "message with a 0 put before it";
                    if (mlen > 1) { int all0 = 1; for (size_t i = 0; i < mlen; i++) all0 &= !msg[i]; (void)all0; }
                    break;
            case 4: case 5: case 6: case 7:
                if (!mlen) { msg[mlen++] = 1; what = "nonempty message for the empty one"; break; }
                a = (unsigned)((x % 24) == 4 ? 0 : (x % 24) == 5 ? mlen - 1 : rnd_below(r, mlen));
                b = (unsigned)rnd_below(r, 8);
                msg[a] ^= (uint8_t)(1u << b);
                what = "message with one bit changed (byte, bit)";
                break;
            case 8: if (mlen == 0) msg[mlen++] = 5; else mlen = 0; what = "empty/nonempty message exchanged"; break;
            case 9: a = (unsigned)rnd_below(r, nb), b = (unsigned)rnd_below(r, nb);
                for (unsigned i = 0; i < n; i++) { uint8_t t = sig[a * n + i]; sig[a * n + i] = sig[b * n + i]; sig[b * n + i] = t; }
                what = "two blocks exchanged"; break;
            case 10: a = (unsigned)rnd_below(r, nb); memset(sig + a * n, 0, n); what = "block zeroed"; break;
            case 11: a = (unsigned)rnd_below(r, nb), b = (unsigned)rnd_below(r, nb); memmove(sig + a * n, sig + b * n, n); what = "block copied over another"; break;
            case 12: g = fx_get(s, (int)(rnd(r) & 0xff)); a = (unsigned)rnd_in(r, 1, nb - 1); memcpy(sig + a * n, g->sig + a * n, (nb - a) * n); what = "tail of another signature from block"; break;
            case 13: g = fx_get(s, (int)(rnd(r) & 0xff)); memcpy(pk, g->pk, 2 * n); what = "another public key"; break;
            case 14: { uint8_t t[32]; memcpy(t, pk, n); memcpy(pk, pk + n, n); memcpy(pk + n, t, n); what = "public key halves exchanged"; break; }
            case 15: memset(sig, 0, sl); what = "all-zero signature"; break;
            case 16: memset(sig, 0xff, sl); what = "all-ones signature"; break;
            case 17: rnd_fill(r, sig, sl); what = "random signature"; break;
            case 18: { a = (unsigned)rnd_below(r, nb); unsigned i = (unsigned)rnd_below(r, n), j = (unsigned)rnd_below(r, n); uint8_t t = sig[a * n + i]; sig[a * n + i] = sig[a * n + j]; sig[a * n + j] = t; what = "two bytes of a block exchanged"; break; }
            case 19: { uint8_t t[32]; memcpy(t, sig, n); memmove(sig, sig + n, sl - n); memcpy(sig + sl - n, t, n); what = "signature rotated by a block"; break; }
            case 20: { a = (unsigned)rnd_below(r, nb); unsigned i = (unsigned)rnd_below(r, n), j = (unsigned)rnd_below(r, n); uint8_t d = (uint8_t)(1 + rnd_below(r, 255)); if (i == j) j = (j + 1) % n; sig[a * n + i] ^= d; sig[a * n + j] ^= d; what = "same change in two bytes of a block"; break; }
            case 21: { a = nb - 1; sig[sl - 1 - rnd_below(r, n)] ^= 0x80; what = "last block changed"; break; }
            case 22: memset(pk + n, 0, n); rnd_fill(r, sig, sl); what = "random signature under a zero root"; break;
            default: memset(pk, 0, 2 * n); memset(sig, 0, sl); what = "zero signature under a zero key"; break;
            }
        }
        expect_refusal(r, s, pk, msg, mlen, sig, sl, what, a, b);
        distinct(hash64(sig, sl, hash64(msg, mlen, hash64(pk, 2 * n, 3))));
    }
}

static void near_case(uint64_t id, rng *r) {
    int k;
    const hset *s = h_plan_set(id, &k);
    const ref_ps *ps = s->r;
    unsigned n = ps->n, sl = ref_siglen(ps);
    static uint8_t sig[SIGMAX], sig2[64];
    uint8_t seed[96], sk[128], msg[64], root[32], opt[32];
    (void)sig2;
    rnd_fill(r, seed, 96);
    if (h_is_s(ps) || k >= 0) ref_keygen(ps, seed, sk);
    memcpy(root, sk + 3 * n, n);
    const char *what;
    uint8_t *q = sk + 3 * n;
    unsigned a = 0;
    if (k < (int)n && !h_is_s(ps)) { a = (unsigned)k; q[a] ^= (uint8_t)(1u << rnd_below(r, 8)); what = "one bit of one byte"; }
    else switch ((h_is_s(ps) ? k + (int)(id % 5) * 3 : k - (int)n) % 14) {
    case 0: a = n - 1; q[a] ^= (uint8_t)(1u << rnd_below(r, 8)); what = "one bit of the last byte"; break;
    case 1: q[0] ^= 0x80; what = "the top bit of the first byte"; break;
    case 2: for (unsigned i = 0; i < n; i++) q[i] ^= 0x5a; what = "the same pattern in every byte"; break;
    case 3: q[1] ^= 0x33; q[n - 2] ^= 0x33; what = "the same pattern in two bytes"; break;
    case 4: q[2] ^= 0x80; q[n - 1] ^= 0x80; what = "the top bits of two bytes"; break;
    case 5: a = (unsigned)rnd_below(r, n - 1); { uint8_t t = q[a]; q[a] = q[a + 1]; q[a + 1] = t; } if (q[a] == q[a + 1]) q[a] ^= 1; what = "two bytes exchanged"; break;
    case 6: for (unsigned i = n / 2; i < n; i++) q[i] ^= (uint8_t)rnd_in(r, 1, 255); what = "the whole second half"; break;
    case 7: for (unsigned i = 0; i < n / 2; i++) q[i] ^= (uint8_t)rnd_in(r, 1, 255); what = "the whole first half"; break;
    case 8: for (unsigned i = 1; i < n; i++) q[i] ^= (uint8_t)rnd_in(r, 1, 255); what = "everything but the first byte"; break;
    case 9: for (unsigned i = 0; i + 1 < n; i++) q[i] ^= (uint8_t)rnd_in(r, 1, 255); what = "everything but the last byte"; break;
    case 10: for (unsigned i = 0; i < n; i++) q[i] = (uint8_t)(q[i] + 1); what = "one added to every byte"; break;
    case 11: q[n / 2]++; q[n / 2 + 1]--; what = "one moved between two bytes"; break;
    case 12: /* a root with a 0 byte early on, different after it */
        for (int t = 0; t < 4000 && sk[3 * n + 1] != 0; t++) { if (h_is_s(ps)) break; rnd_fill(r, seed, 96); ref_keygen(ps, seed, sk); }
        for (unsigned i = 2; i < n; i++) q[i] ^= 0x11;
        what = "everything after a 0 byte";
        break;
    default: memset(q, 0, n); what = "the root replaced by zeroes"; break;
    }
    size_t mlen = rnd_below(r, 60);
    rnd_fill(r, msg, mlen);
    rnd_fill(r, opt, 32);
    /* the signature binds the changed root through the message digest, but its path ends in the real one */
    ref_sign(ps, sk, opt, msg, mlen, sig);
    if (memcmp(q, root, n)) expect_refusal(r, s, sk + 2 * n, msg, mlen, sig, sl, what, a, 0);
    distinct(hash64(sk, 4 * n, 9));
    if (k < 2) sample("%s: path ends in a root that differs in %s from the public key's: refused", ps->name, what);
}

void h_case(uint64_t id, rng *r) { near ? near_case(id, r) : flip_case(id, r); }
