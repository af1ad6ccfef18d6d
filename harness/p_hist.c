/*
 * C01, C02, C04, C05: histories. All operations of a case use one context, one key, one message, one
 * signature buffer and one random function, at addresses that never change; between operations mostly
 * one thing is changed (a byte of the key or of the message, the randomiser, the length, the set), often
 * nothing, so that anything remembered by address, by length, by part of the key or by parameter set
 * becomes visible. Every operation is performed in every mode, the mode says which kind is judged:
 * keygen, sign, accept or refuse.
 */
#include "h.h"
double h_case_cpu_limit = 120;
static int J; /* what is judged */
enum { KEYGEN, SIGN, ACCEPT, REFUSE };

uint64_t h_ncases(void) {
    J = !strcmp(h_mode, "keygen") ? KEYGEN : !strcmp(h_mode, "sign") ? SIGN : !strcmp(h_mode, "accept") ? ACCEPT : REFUSE;
    fx_build(2, h_scale >= .5 ? 1 : 0);
    uint64_t n = (uint64_t)(40 * h_scale + .5);
    return n ? n : 1;
}

static struct ts_context C;
static uint8_t K[128], P[64], M[4096 + 16], S[SIGMAX], E[96], O[32], W[SIGMAX];
static size_t mlen;
static const hset *s;
static char tr[300];
static void note(const char *f, int a) {
    size_t l = strlen(tr);
    if (l > 240) { memmove(tr, tr + 120, l - 119); l -= 120; }
    snprintf(tr + l, sizeof tr - l, f, a);
}

/* another set with the same n */
static void other_set(rng *r, int slow_too) {
    for (int i = 0; i < 40; i++) {
        const hset *o = &h_sets[rnd_below(r, (uint64_t)h_nsets)];
        if (o->r->n == s->r->n && o != s && (slow_too || !h_is_s(o->r))) { s = o; note(" set%d", (int)(o->r - ref_sets)); return; }
    }
}
static void change_bytes(rng *r, uint8_t *p, size_t n, const char *what) {
    if (!n) return;
    note(" ", 0);
    note(what, 0);
    size_t at = rnd_below(r, n);
    switch (rnd_below(r, 4)) {
    case 0: p[at] ^= (uint8_t)(1u << rnd_below(r, 8)); break;
    case 1: p[at] = (uint8_t)rnd(r); break;
    case 2: p[n - 1] ^= 1; break;
    default: rnd_fill(r, p, n); break;
    }
}
static void change_one(rng *r) {
    unsigned n = s->r->n;
    switch (rnd_below(r, 12)) {
    case 0: break; /* nothing: the same once more */
    case 1: change_bytes(r, E, n, "skseed"); memcpy(K, E, n); break;
    case 2: change_bytes(r, E + n, n, "prf"); memcpy(K + n, E + n, n); break;
    case 3: change_bytes(r, E + 2 * n, n, "pkseed"); memcpy(K + 2 * n, E + 2 * n, n); break;
    case 4: change_bytes(r, K + 3 * n, n, "root"); break;
    case 5: case 6: change_bytes(r, M, mlen, "msg"); break;
    case 7: mlen = mlen && (rnd(r) & 1) ? mlen - 1 : mlen + 1; note(" len%d", (int)mlen); break;
    case 8: mlen = h_msglen(r) % 4000; h_msg_fill(r, M, mlen); note(" newmsg%d", (int)mlen); break;
    case 9: change_bytes(r, O, n, "opt"); break;
    case 10: other_set(r, 0); break;
    default: h_seed_material(r, s->r, E); memcpy(K, E, 3 * n); note(" newseeds", 0); break;
    }
    if (mlen > 4000) mlen = 4000;
}

static int verify(rng *r, const uint8_t *pk, unsigned sl) {
    unsigned d = 0, n = s->r->n;
    int st = (int)rnd_below(r, 4);
    if (rnd_below(r, 4) == 0) rnd_fill(r, &C, sizeof C);
    ts_init_verify(&C, M, mlen, s->ps, pk);
    while (d < sl) {
        unsigned k = st == 0 ? sl : st == 1 ? n : (unsigned)rnd_in(r, 1, 3000);
        if (k > sl - d) k = sl - d;
        (void)ts_update_verify(S + d, k, &C);
        d += k;
    }
    return ts_verify(&C);
}

void h_case(uint64_t id, rng *r) {
    int fast[12], nf = 0;
    for (int i = 0; i < h_nsets; i++) if (!h_is_s(h_sets[i].r)) fast[nf++] = i;
    s = &h_sets[fast[id % (uint64_t)nf]];
    tr[0] = 0;
    uint64_t hist = id;
    rnd_fill(r, O, 32);
    h_seed_material(r, s->r, E);
    ref_keygen(s->r, E, K);
    mlen = h_msglen(r) % 500;
    h_msg_fill(r, M, mlen);
    rnd_fill(r, &C, sizeof C);
    int valid = 0; /* S is a signature of M under K, for s */
    int steps = h_thorough ? 60 : 30;
    for (int t = 0; t < steps; t++) {
        unsigned n = s->r->n, sl = ref_siglen(s->r);
        int op = (int)rnd_below(r, 10);
        hist = hist * 1099511628211ULL + (uint64_t)op;
        if (op < 2) { /* a key pair, in place */
            if (h_is_s(s->r)) continue;
            if (rnd_below(r, 4)) change_one(r);
            n = s->r->n;
            valid = 0;
            note(" KEYGEN", 0);
            int pk = (int)(rnd(r) & 1);
            h_rng_set(E, 3 * n);
            int ok = ts_gen_key(K, pk ? P : 0, s->ps, h_rng_cb);
            ref_keygen(s->r, E, W);
            if (J == KEYGEN) {
                stat_add("evaluations", 1);
                CHECK(ok == 1 && !memcmp(K, W, 4 * n) && (!pk || !memcmp(P, W + 2 * n, 2 * n)), "keygen-history", "%s: key generation returned %d, key %s instead of %s, after%s", s->r->name, ok, hex(K, 4 * n), hex(W, 4 * n), tr);
            }
            memcpy(K, W, 4 * n);
        } else if (op < 5) { /* sign */
            if (h_is_s(s->r)) continue;
            if (rnd_below(r, 8)) change_one(r);
            n = s->r->n, sl = ref_siglen(s->r);
            int det = rnd_below(r, 3) == 0, whole = rnd_below(r, 4) == 0;
            unsigned want = whole ? sl : n * (unsigned)rnd_in(r, 1, 24), g = 0, d = 0;
            note(det ? " DSIGN%d" : " SIGN%d", (int)(want / n));
            if (rnd_below(r, 4) == 0) rnd_fill(r, &C, sizeof C);
            h_rng_set(O, n);
            ts_init_sign(&C, M, mlen, s->ps, K, det ? 0 : h_rng_cb);
            int st = (int)rnd_below(r, 3);
            do {
                unsigned k = st == 0 ? want : st == 1 ? n : (unsigned)rnd_in(r, 1, 999);
                if (k > want - d) k = want - d;
                d += g = ts_sign(S + d, k, &C);
            } while (g && d < want);
            ref_sign_prefix(s->r, K, det ? K + 2 * n : O, M, mlen, W, want);
            if (J == SIGN) {
                unsigned i = 0;
                while (i < want && S[i] == W[i]) i++;
                stat_add("evaluations", 1);
                stat_add("signature bytes compared with the specification", want);
                CHECK(d == want && i == want, "sign-history", "%s: %u of %u bytes, first difference at byte %u (block %u), after%s", s->r->name, d, want, i, i / n, tr);
            }
            memcpy(S, W, want);
            /* a valid triple only when the root is the seeds' own: settle it by the reference */
            valid = whole && ref_verify(s->r, K + 2 * n, M, mlen, S, sl);
        } else if (op == 5) { /* another signature altogether, in the same place */
            const fx *f = 0;
            for (int i = 0; i < 30 && !f; i++) {
                const fx *x = &h_fx[rnd_below(r, (uint64_t)h_nfx)];
                if (x->mlen <= 4000 && (x->n == n || rnd_below(r, 4) == 0)) f = x;
            }
            if (!f) continue;
            s = f->s;
            note(" LOAD%d", (int)(s->r - ref_sets));
            memcpy(K, f->sk, 4 * f->n);
            memcpy(E, K, 3 * f->n);
            memcpy(M, f->msg, mlen = f->mlen);
            memcpy(S, f->sig, f->siglen);
            valid = 1;
        } else if (valid) { /* verify; before or after an altered one in the same place */
            int alt = op < 8;
            uint8_t *at = 0, x = 0;
            size_t m0 = mlen;
            const hset *s0 = s;
            uint8_t last = M[mlen];
            memcpy(P, K + 2 * n, 2 * n);
            uint8_t *pk = rnd(r) & 1 ? P : K + 2 * n;
            if (alt) {
                x = (uint8_t)(1u << rnd_below(r, 8));
                switch (rnd_below(r, 8)) {
                case 0: at = pk + rnd_below(r, n); note(" ALTseed", 0); break;
                case 1: at = pk + n + rnd_below(r, n); note(" ALTroot", 0); break;
                case 2: if (mlen) { at = M + rnd_below(r, mlen); note(" ALTmsg", 0); break; } /* fall through */
                case 3: mlen++; note(" ALTlen", 0); break;
                case 4: if (mlen) { mlen--; note(" ALTshort", 0); break; } /* fall through */
                case 5: at = S + rnd_below(r, n); note(" ALTr", 0); break;
                case 6: at = S + sl - 1 - rnd_below(r, (uint64_t)n * s->r->hm); note(" ALTtail", 0); break;
                default: at = S + rnd_below(r, sl); note(" ALTsig", 0); break;
                }
                if (at) *at ^= x;
            } else note(" VERIFY", 0);
            int v = verify(r, pk, sl);
            if (!alt && J == ACCEPT) {
                stat_add("evaluations", 1);
                CHECK(v == 1, "accept-history", "%s: honest signature of a %zu-byte message refused, after%s", s->r->name, mlen, tr);
            }
            if (alt && J == REFUSE) {
                stat_add("evaluations", 1);
                CHECK(v == 0, "refuse-history", "%s: accepted although altered, %zu-byte message, after%s", s->r->name, mlen, tr);
            }
            if (at) *at ^= x;
            mlen = m0;
            M[mlen] = last;
            s = s0;
        }
    }
    distinct(hist);
    if (id < 6) sample("a history at fixed addresses, ending in%s", tr);
}
