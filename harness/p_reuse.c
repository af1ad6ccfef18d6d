/*
 * C16: long random histories on one context (initialisations of both kinds and any parameter set at
 * any point, abandoned and finished operations, calls of the wrong kind), every result judged by a
 * shadow model.
 */
#include "h.h"
#ifndef __has_feature
#define __has_feature(x) 0
#endif
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define POISON(p, n) __msan_poison(p, n)
#define MUST_BE_INIT(p, n) __msan_check_mem_is_initialized(p, n)
#else
#define POISON(p, n) ((void)0)
#define MUST_BE_INIT(p, n) ((void)0)
#endif
double h_case_cpu_limit = 90;

uint64_t h_ncases(void) {
    fx_build(3, h_scale >= .5 ? 1 : 0);
    uint64_t n = (uint64_t)(72 * h_scale + .5);
    return n ? n : 1;
}

static struct { int kind; const fx *f; unsigned pos; int altered, dead; } S; /* the shadow; kind 0 none, 1 signing, 2 verifying */
static uint8_t altered_sig[SIGMAX];
static const char *trail(int op) {
    static char b[400];
    static int n;
    static const char *nm[] = {"init_sign", "init_verify", "sign", "update", "verdict", "wrong-kind", "garbage"};
    if (op < 0) { n = 0; b[0] = 0; return b; }
    if (n > 340) { memmove(b, b + 170, (size_t)n - 170); n -= 170; }
    n += snprintf(b + n, sizeof b - (size_t)n, " %s", nm[op]);
    return b;
}

void h_case(uint64_t id, rng *r) {
    struct ts_context *c = malloc(sizeof *c);
    static uint8_t buf[SIGMAX + 64];
    uint64_t hist = id;
    double budget = h_thorough ? 150000 : 50000; /* signature bytes of work */
    memset(&S, 0, sizeof S);
    trail(-1);
    memset(c, (int)rnd(r), sizeof *c);
    const char *t = "";
    for (int step = 0; budget > 0 && step < 4000; step++) {
        int op;
        if (!S.kind) op = (int)rnd_below(r, 2);
        else {
            uint64_t x = rnd_below(r, 100);
            if (x < 2) op = (int)rnd_below(r, 2); /* abandon */
            else if (x < 4) op = 6;
            else if (x < 16) op = 5;
            else if (x < 28) op = 4;
            else op = S.kind == 1 ? 2 : 3;
        }
        hist = hist * 1099511628211ULL + (uint64_t)op + 1;
        if (op != 2 && op != 3) t = trail(op);
        stat_add("evaluations", 1);
        const fx *f = S.f;
        switch (op) {
        case 6: /* the memory gets any contents, then a new operation starts in it */
            switch (rnd_below(r, 5)) {
            case 0: memset(c, 0, sizeof *c); break;
            case 1: memset(c, 0xff, sizeof *c); break;
            case 2: rnd_fill(r, c, sizeof *c); break;
            case 3: { /* one field's worth of garbage in an otherwise plausible context */
                size_t o = rnd_below(r, sizeof *c), k = rnd_in(r, 1, 8);
                if (o + k > sizeof *c) k = sizeof *c - o;
                rnd_fill(r, (uint8_t *)c + o, k);
                break;
            }
            default: POISON(c, sizeof *c); break;
            }
            stat_add("contexts overwritten", 1);
            /* fall through */
        case 0: case 1: {
            const fx *nf = rnd_below(r, 5) == 0 && f ? f : &h_fx[rnd_below(r, (uint64_t)h_nfx)];
            int kind = op == 6 ? 1 + (int)(rnd(r) & 1) : op + 1;
            if (rnd_below(r, 3) == 0) /* another parameter set of the same size, or another family */
            {
                const hset *o = &h_sets[rnd_below(r, (uint64_t)h_nsets)];
                if (fx_count(o)) nf = fx_get(o, (int)rnd_below(r, 8));
            }
            S.kind = kind;
            S.f = f = nf;
            S.pos = 0;
            S.dead = S.altered = 0;
            if (kind == 1) {
                h_rng_set(f->opt, f->n);
                ts_init_sign(c, f->msg, f->mlen, f->s->ps, f->sk, f->det ? 0 : h_rng_cb);
                stat_add("signings begun", 1);
            } else {
                ts_init_verify(c, f->msg, f->mlen, f->s->ps, f->pk);
                stat_add("verifications begun", 1);
                memcpy(altered_sig, f->sig, f->siglen);
                if (rnd_below(r, 3) == 0) {
                    S.altered = 1;
                    altered_sig[rnd_below(r, f->siglen)] ^= (uint8_t)(1u << rnd_below(r, 8));
                }
            }
            budget -= 200;
            break;
        }
        case 2: {
            unsigned k = h_chunk(r, (int)rnd_below(r, H_CHUNK_STYLES), f->n), left = f->siglen - S.pos;
            if (rnd_below(r, 12) == 0 && !h_is_s(f->s->r)) k = left + (unsigned)rnd_below(r, 40);
            if (h_is_s(f->s->r)) {
                if (S.pos > 2 * f->n) k = 0;
                else if (k > 2 * f->n) k = 2 * f->n;
            } else if (k > left) k = left + (unsigned)rnd_below(r, 20);
            unsigned want = k < left ? k : left;
            memset(buf, 0x5c, want + 32);
            unsigned g = ts_sign(buf, k, c);
            MUST_BE_INIT(buf, want);
            CHECK(g == want, "sign-count", "%s: signing at %u asked for %u: %u bytes; history%s", f->s->r->name, S.pos, k, g, t);
            CHECK(!memcmp(buf, f->sig + S.pos, want), "sign-bytes", "%s: signature bytes %u..%u are wrong; history%s", f->s->r->name, S.pos, S.pos + want, t);
            for (int i = 0; i < 32; i++) if (buf[want + (unsigned)i] != 0x5c) { viol("sign-overrun", "%s: signing wrote beyond the %u bytes produced; history%s", f->s->r->name, want, t); break; }
            S.pos += want;
            budget -= h_is_s(f->s->r) ? want * 20 : want;
            break;
        }
        case 3: {
            unsigned k = h_chunk(r, (int)rnd_below(r, H_CHUNK_STYLES), f->n), left = f->siglen - S.pos;
            if (rnd_below(r, 6) == 0) k = left;
            if (k > left && rnd_below(r, 6)) k = left;
            if (k > 4000 && k != left) k = 4000;
            int u;
            if (k > left) { /* too much */
                memcpy(buf, altered_sig + S.pos, left);
                rnd_fill(r, buf + left, k - left > 64 ? 64 : k - left);
                if (k > left + 64) k = left + 64;
                u = ts_update_verify(buf, k, c);
                S.pos = f->siglen;
                if (left || S.dead == 2 || S.altered) CHECK(u == 0, "update-failed", "%s: an update past the end returns %d; history%s", f->s->r->name, u, t);
                if (left || S.altered) S.dead = 2;  /* and reported */
                else if (!S.dead) S.dead = 1;       /* what follows in pieces of less than n bytes may be noticed later */
            } else {
                u = ts_update_verify(altered_sig + S.pos, k, c);
                S.pos += k;
                if (S.dead == 2 || (S.altered && S.pos == f->siglen)) CHECK(u == 0, "update-failed", "%s: the end of a bad signature, or an update after a failure, returns %d; history%s", f->s->r->name, u, t);
                if (!S.altered && !S.dead) CHECK(u == 1, "update", "%s: an update within an honest signature (up to byte %u of %u) returns %d; history%s", f->s->r->name, S.pos, f->siglen, u, t);
            }
            budget -= k / 8 + 20;
            break;
        }
        case 4: {
            int want = S.kind == 2 && S.pos == f->siglen && !S.altered && !S.dead, v = ts_verify(c);
            CHECK(v == want, "verdict", "%s: verdict %d instead of %d at byte %u of %u (%s%s%s); history%s", f->s->r->name, v, want, S.pos, f->siglen,
                  S.kind == 1 ? "signing" : "verifying", S.altered ? " an altered signature" : "", S.dead ? ", too much fed" : "", t);
            stat_add(v ? "verdicts 1" : "verdicts 0", 1);
            break;
        }
        case 5: {
            unsigned k = (unsigned)(rnd(r) & 1 ? rnd_below(r, 80) : rnd_below(r, 3000));
            if (S.kind == 1) {
                rnd_fill(r, buf, k);
                if (rnd(r) & 1 && k <= f->siglen) memcpy(buf, f->sig, k);
                int u = ts_update_verify(buf, k, c);
                CHECK(u == 0, "update-on-signing", "%s: feeding a signing context %u bytes returns %d; history%s", f->s->r->name, k, u, t);
                CHECK(ts_verify(c) == 0, "verify-on-signing", "%s: a signing context gives verdict 1; history%s", f->s->r->name, t);
            } else {
                memset(buf, 0x6d, k + 64);
                unsigned g = ts_sign(buf, k, c);
                CHECK(g == 0, "sign-on-verifying", "%s: a verification context at byte %u gives %u signature bytes; history%s", f->s->r->name, S.pos, g, t);
                for (unsigned i = 0; i < k + 64; i++) if (buf[i] != 0x6d) { viol("sign-writes", "%s: asking a verification context for signature bytes wrote to the buffer; history%s", f->s->r->name, t); break; }
            }
            stat_add("wrong-kind calls", 1);
            budget -= 10;
            break;
        }
        }
    }
    distinct(hist);
    if (id < 6) sample("a history ending in%s", t);
    free(c);
}
