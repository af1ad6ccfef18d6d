/*
 * C09: every object the library is given stands directly against an unmapped page, before or after
 * it; inputs are write-protected; a message disappears when ts_init_sign returns, a signature piece
 * when the update returns.  Faults are attributed to the object they hit.
 */
#define _GNU_SOURCE
#include <signal.h>
#include <sys/mman.h>
#include <unistd.h>
#include "h.h"
double h_case_cpu_limit = 60;

#define PG 4096u
typedef struct {
    const char *name;
    uint8_t *lo;        /* data pages */
    size_t len;         /* bytes of data pages */
    uint8_t *p;         /* the object */
    size_t n;
    int at_end;
} region;
#define NREG 8
static region reg[NREG];
static struct { uint8_t *p; size_t n; const char *name; } none_obj; /* zero-length objects point here */
static volatile const char *phase = "?", *cur_set = "?";

static void on_segv(int sig, siginfo_t *si, void *u) {
    (void)u;
    uintptr_t a = (uintptr_t)si->si_addr;
    for (int i = 0; i < NREG; i++) {
        region *g = &reg[i];
        if (!g->lo || a < (uintptr_t)g->lo - PG || a >= (uintptr_t)g->lo + g->len + PG) continue;
        const char *where = a < (uintptr_t)g->p ? "before" : a >= (uintptr_t)g->p + g->n ? "beyond" : "in (write-protected or no longer valid)";
        viol("fault", "%s: access %s %s of %zu bytes (offset %ld) during %s", cur_set, where, g->name, g->n,
             (long)((intptr_t)a - (intptr_t)g->p), phase);
        _exit(1);
    }
    if (a >= (uintptr_t)none_obj.p && a < (uintptr_t)none_obj.p + none_obj.n)
        viol("fault", "%s: access through the pointer of a zero-length object during %s", cur_set, phase);
    else
        viol("fault", "%s: fatal signal %d at address %p during %s", cur_set, sig, si->si_addr, phase);
    _exit(1);
}

static void reg_make(int i, size_t max) {
    region *g = &reg[i];
    size_t len = (max + PG - 1) / PG * PG;
    if (g->lo && g->len >= len) return;
    uint8_t *b = mmap(0, len + 2 * PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (b == MAP_FAILED) exit(3);
    g->lo = b + PG;
    g->len = len;
}
static void prot(region *g, int p) { if (mprotect(g->lo, g->len, p)) exit(3); }

/* place an object of n bytes; contents from src, or left as filler */
static uint8_t *put(int i, const char *name, const void *src, size_t n, int at_end, int ro, unsigned align) {
    region *g = &reg[i];
    if (n > g->len) reg_make(i, n);
    g->name = name;
    g->n = n;
    g->at_end = at_end;
    if (!n) { /* nothing may be accessed at all */
        prot(g, PROT_NONE);
        return g->p = at_end ? g->lo + g->len : g->lo;
    }
    prot(g, PROT_READ | PROT_WRITE);
    memset(g->lo, 0xA7, g->len);
    g->p = at_end ? g->lo + (g->len - n) / align * align : g->lo;
    if (src) memcpy(g->p, src, n);
    if (ro) prot(g, PROT_READ);
    return g->p;
}
static void gone(int i) { prot(&reg[i], PROT_NONE); }
static void slack(int i, const char *name) {
    region *g = &reg[i];
    if (!g->n) return;
    for (uint8_t *q = g->lo; q < g->lo + g->len; q++) {
        if (q == g->p) q += g->n;
        if (q < g->lo + g->len && *q != 0xA7) {
            viol("stray-write", "%s: byte at offset %ld of %s (%zu bytes) was written", (const char *)cur_set, (long)(q - g->p), name, g->n);
            return;
        }
    }
}

enum { CTX, KEY, PUB, MSG, PIECE };

static int inited;
static void setup(void) {
    if (inited) return;
    inited = 1;
    struct sigaction a;
    memset(&a, 0, sizeof a);
    a.sa_sigaction = on_segv;
    a.sa_flags = SA_SIGINFO | SA_ONSTACK;
    sigaction(SIGSEGV, &a, 0);
    sigaction(SIGBUS, &a, 0);
    reg_make(CTX, sizeof(struct ts_context));
    reg_make(KEY, 4 * 32);
    reg_make(PUB, 2 * 32);
    reg_make(MSG, PG);
    reg_make(PIECE, PG);
}

uint64_t h_ncases(void) {
    fx_build(4, h_scale >= .5 ? 1 : 0);
    return h_plan(30, h_scale >= .5 ? 12 : 6);
}

static void keygen(const hset *s, rng *r) {
    unsigned n = s->r->n;
    uint8_t seed[96];
    int e = (int)(rnd(r) & 1), want = rnd_below(r, 3) != 0;
    h_seed_material(r, s->r, seed);
    uint8_t *sk = put(KEY, "the private key buffer", 0, 4 * n, e, 0, 1);
    uint8_t *pk = put(PUB, "the public key buffer", 0, 2 * n, !e, 0, 1);
    h_rng_set(seed, 3 * n);
    int fail = rnd_below(r, 6) == 0;
    if (fail) h_rs.fail_at = 1, h_rs.scribble = (int)rnd_below(r, 3);
    if (h_is_s(s->r) && !fail && rnd(r) & 1) want = 1;
    phase = "ts_gen_key";
    (void)ts_gen_key(sk, want ? pk : 0, s->ps, h_rng_cb);
    slack(KEY, "the private key buffer");
    slack(PUB, "the public key buffer");
    stat_add("key generations", 1);
    distinct(hash64(seed, 96, (uint64_t)(e * 2 + want)));
}

static void sign(const hset *s, rng *r, int style, unsigned cap) {
    unsigned n = s->r->n, done = 0;
    uint8_t sk0[128], opt[32];
    size_t mlen = h_msglen(r);
    uint8_t m0[3000];
    rnd_fill(r, sk0, 4 * n);
    rnd_fill(r, opt, 32);
    if (mlen > 3000) mlen = 3000;
    h_msg_fill(r, m0, mlen);
    uint64_t lay = rnd(r);
    struct ts_context *c = (void *)put(CTX, "the context", 0, sizeof *c, (int)(lay & 1), 0, _Alignof(struct ts_context));
    uint8_t *sk = put(KEY, "the private key", sk0, 4 * n, (int)(lay >> 1 & 1), 1, 1);
    uint8_t *m = put(MSG, "the message", m0, mlen, (int)(lay >> 2 & 1), 1, 1);
    put(PUB, "an unrelated object", 0, 2 * n, 1, 1, 1);
    h_rng_set(opt, n);
    phase = "ts_init_sign";
    ts_init_sign(c, m, mlen, s->ps, sk, rnd(r) & 1 ? h_rng_cb : 0);
    gone(MSG);
    reg[MSG].name = "the message (after ts_init_sign returned)";
    phase = "ts_sign";
    while (done < cap) {
        unsigned want = h_chunk(r, style, n);
        if (want > cap - done) want = cap - done;
        uint8_t *d = put(PIECE, "the output buffer", 0, want, (int)(rnd(r) & 1), 0, 1);
        unsigned got = ts_sign(d, want, c);
        slack(PIECE, "the output buffer");
        stat_add("evaluations", 1);
        done += got;
        if (got != want) break;
    }
    if (cap >= ref_siglen(s->r)) { /* nothing is left: a call writes nothing, whatever it is asked for */
        uint8_t *d = put(PIECE, "the output buffer after the end", 0, 0, 1, 0, 1);
        phase = "ts_sign after the end";
        (void)ts_sign(d, (unsigned)rnd_in(r, 1, 300), c);
        /* the last call may ask for more than is left */
    }
    slack(CTX, "the context");
    stat_add("signatures", 1);
    stat_add("signature bytes", done);
    distinct(hash64(sk0, 4 * n, (uint64_t)style * 8 + (lay & 7)));
}

static void verify(const hset *s, rng *r, int style, int hostile) {
    unsigned n = s->r->n;
    uint8_t pk0[64], m0[3000], opt[64];
    static uint8_t sig[SIGMAX + 70000];
    size_t mlen, sl = ref_siglen(s->r), len = sl, d = 0;
    const fx *f = !hostile && fx_count(s) ? fx_get(s, (int)rnd_below(r, 64)) : 0;
    (void)opt;
    if (f) {
        mlen = f->mlen;
        if (mlen > 3000) f = 0;
    }
    if (f) {
        memcpy(pk0, f->pk, 2 * n);
        memcpy(m0, f->msg, mlen);
        memcpy(sig, f->sig, sl);
    } else {
        mlen = h_msglen(r);
        if (mlen > 3000) mlen = 3000;
        h_msg_fill(r, m0, mlen);
        rnd_fill(r, pk0, 2 * n);
        if (rnd_below(r, 4) == 0) len = sl + rnd_below(r, 70000);
        rnd_fill(r, sig, len);
    }
    uint64_t lay = rnd(r);
    struct ts_context *c = (void *)put(CTX, "the context", 0, sizeof *c, (int)(lay & 1), 0, _Alignof(struct ts_context));
    uint8_t *pk = put(PUB, "the public key", pk0, 2 * n, (int)(lay >> 1 & 1), 1, 1);
    uint8_t *m = put(MSG, "the message", m0, mlen, (int)(lay >> 2 & 1), 1, 1);
    phase = "ts_init_verify";
    ts_init_verify(c, m, mlen, s->ps, pk);
    while (d < len) {
        size_t k = h_chunk(r, style, n);
        if (k > len - d) k = len - d;
        uint8_t *q = put(PIECE, "the signature piece", sig + d, k, (int)(rnd(r) & 1), 1, 1);
        phase = "ts_update_verify";
        (void)ts_update_verify(q, (unsigned)k, c);
        gone(PIECE);
        reg[PIECE].name = "an earlier signature piece";
        d += k;
        stat_add("evaluations", 1);
        if (rnd_below(r, 50) == 0) {
            phase = "ts_verify";
            (void)ts_verify(c);
        }
    }
    phase = "ts_verify";
    int v = ts_verify(c);
    slack(CTX, "the context");
    if (f && v) stat_add("honest signatures accepted", 1);
    stat_add("verifications", 1);
    distinct(hash64(pk0, 2 * n, (uint64_t)style * 8 + (lay & 7)));
}

static void hashes(rng *r) {
    uint8_t m0[1200];
    size_t len = h_msglen(r) % 1200;
    rnd_fill(r, m0, len);
    uint64_t lay = rnd(r);
    cur_set = "hash primitives";
    for (int w = 0; w < 3; w++, lay >>= 4) {
        uint8_t *m = put(MSG, "the hashed data", m0, len, (int)(lay & 1), 1, 1);
        size_t csz = w == 0 ? sizeof(SHA256_CTX) : w == 1 ? sizeof(SHA512_CTX) : sizeof(SHAKE256_CTX);
        void *c = put(CTX, "the hash context", 0, csz, (int)(lay >> 1 & 1), 0, 8);
        unsigned on = w == 0 ? 4 * (unsigned)rnd_in(r, 1, 8) : w == 1 ? 8 * (unsigned)rnd_in(r, 1, 8) : (unsigned)rnd_in(r, 1, 700);
        size_t cut = rnd_below(r, len + 1);
        if (w == 0) {
            phase = "SHA-256";
            ts_SHA256_init(c);
            ts_SHA256_update(c, m, cut);
            ts_SHA256_update(c, m + cut, len - cut);
            gone(MSG);
            uint8_t *o = put(PIECE, "the digest", 0, on, (int)(lay >> 2 & 1), 0, 1);
            if (on == 32 && (rnd(r) & 1)) ts_SHA256_final(o, c);
            else ts_SHA256_final_trunc(o, c, on);
        } else if (w == 1) {
            phase = "SHA-512";
            ts_SHA512_init(c);
            ts_SHA512_update(c, m, cut);
            ts_SHA512_update(c, m + cut, len - cut);
            gone(MSG);
            uint8_t *o = put(PIECE, "the digest", 0, on, (int)(lay >> 2 & 1), 0, 1);
            if (on == 64 && (rnd(r) & 1)) ts_SHA512_final(o, c);
            else ts_SHA512_final_trunc(o, c, on);
        } else {
            phase = "SHAKE256";
            ts_shake256_inc_init(c);
            ts_shake256_inc_absorb(c, m, cut);
            ts_shake256_inc_absorb(c, m + cut, len - cut);
            gone(MSG);
            ts_shake256_inc_finalize(c);
            uint8_t *o = put(PIECE, "the squeezed output", 0, on, (int)(lay >> 2 & 1), 0, 1);
            size_t oc = rnd_below(r, on + 1);
            ts_shake256_inc_squeeze(o, oc, c);
            ts_shake256_inc_squeeze(o + oc, on - oc, c);
        }
        slack(PIECE, "the digest buffer");
        slack(CTX, "the hash context");
        stat_add("hash computations", 1);
        stat_add("evaluations", 1);
    }
}

void h_case(uint64_t id, rng *r) {
    int k;
    const hset *s = h_plan_set(id, &k);
    unsigned n = s->r->n, sl = ref_siglen(s->r);
    int slow = h_is_s(s->r), style = (int)rnd_below(r, H_CHUNK_STYLES);
    setup();
    cur_set = s->r->name;
    switch (k % 6) {
    case 0: keygen(s, r); break;
    case 1: sign(s, r, style, slow && k != 1 ? 5 * n : slow && h_scale < .5 ? 3 * n : sl + (rnd(r) & 1)); break;
    case 2: case 3: verify(s, r, style, 0); break;
    case 4: verify(s, r, style, 1); break;
    default: for (int i = 0; i < 30; i++) hashes(r); distinct(id); break;
    }
    if (k < 6) sample("%s: %s with objects against unmapped pages, chunk style %d", s->r->name, k == 0 ? "key generation" : k == 1 ? "signing" : k < 4 ? "honest verification" : k == 4 ? "hostile verification" : "hash primitives", style);
}
