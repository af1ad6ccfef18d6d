/*
 * C18: messages of every size are signed and verified as a whole.  Signature prefixes (R and the first
 * FORS values, which depend on the whole message twice) against the reference; honest signatures
 * accepted; a change at any place, or of the length, refused.  Lengths from 1 byte to beyond 2^32.
 */
#define _GNU_SOURCE
#include <sys/mman.h>
#include <unistd.h>
#include "h.h"
double h_case_cpu_limit = 400;

#define UNIT (16ull << 20)
static uint8_t *buf;            /* UNIT bytes over and over */
static uint64_t tot;
static int fd;

typedef struct { const char *set; uint64_t len; int kind; } big; /* kind: 0 sign, 1 another message's signature, 2 sign, verify, change, 3 verify only */
static const big bigs[] = {
    {"sha2_128f", (1ull << 32) + 5, 0}, {"sha2_256f", (1ull << 32) + 5, 0}, {"shake_128f", (1ull << 32) + 5, 0},
    {"sha2_128f", (1ull << 32) + 5, 1}, {"sha2_192f", (1ull << 32) + 5, 1}, {"shake_256f", (1ull << 32) + 5, 1},
    {"sha2_128f", (1ull << 31) + 9, 0}, {"sha2_192f", (1ull << 31) + 77, 0}, {"shake_192f", (1ull << 31) + 9, 0},
    {"sha2_192f", (1ull << 31) + 77, 3}, {"shake_128f", (1ull << 31) + 9, 3},
    {"sha2_128f", (1ull << 29) + 9, 2}, {"sha2_192f", (1ull << 29) - 70, 2}, {"sha2_256f", (1ull << 29) + 9, 2}, {"shake_192f", (1ull << 29) + 9, 2},
    {"sha2_128f", (1ull << 28) + 1, 2}, {"shake_256f", (1ull << 27) + 3, 2},
};
static int nbig, firstbig;
static struct { const hset *s; uint64_t len; int kind; } todo[24];

uint64_t h_ncases(void) {
    firstbig = 0;
    int lo = 0, hi = 0;
    if (strstr(h_mode, "huge")) lo = 0, hi = 17;
    else if (strstr(h_mode, "big")) lo = 11, hi = 17;
    nbig = 0;
    uint64_t want = 4 * UNIT;
    for (int i = lo; i < hi; i++) {
        const hset *s = h_set(bigs[i].set);
        if (!s) continue;
        todo[nbig].s = s;
        todo[nbig].len = bigs[i].len;
        todo[nbig++].kind = bigs[i].kind;
        if (bigs[i].len > want) want = bigs[i].len;
    }
    fd = memfd_create("m", 0);
    if (fd < 0 || ftruncate(fd, (off_t)UNIT)) exit(3);
    tot = (want + 2 * UNIT) / UNIT * UNIT;
    buf = mmap(0, tot, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (buf == MAP_FAILED) exit(3);
    for (uint64_t o = 0; o < tot; o += UNIT)
        if (mmap(buf + o, UNIT, o ? PROT_READ : PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) exit(3);
    rng r;
    rng_init(&r, 5, 6, h_seed);
    rnd_fill(&r, buf, UNIT);
    mprotect(buf, UNIT, PROT_READ);
    return (uint64_t)nbig + h_plan(28, 3);
}

/* a change of one byte of the message, in this process only */
static void poke(uint64_t at, uint8_t x) {
    uint64_t pg = at & ~4095ull;
    uint8_t keep[4096];
    memcpy(keep, buf + pg, 4096);
    if (mmap(buf + pg, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) == MAP_FAILED) exit(3);
    memcpy(buf + pg, keep, 4096);
    buf[at] ^= x;
}
static void unpoke(uint64_t at) {
    uint64_t pg = at & ~4095ull;
    if (mmap(buf + pg, 4096, PROT_READ, MAP_SHARED | MAP_FIXED, fd, (off_t)(pg % UNIT)) == MAP_FAILED) exit(3);
}

static uint8_t sig[SIGMAX], out[256];

static void sign_check(rng *r, const hset *s, const uint8_t *sk, const uint8_t *m, uint64_t len, const uint8_t *opt) {
    unsigned n = s->r->n, want = 3 * n;
    ref_sign_prefix(s->r, sk, opt ? opt : sk + 2 * n, m, len, sig, want);
    unsigned got = h_lib_sign(r, s, sk, m, len, opt, 0, out, want);
    unsigned i = 0;
    while (i < want && i < got && out[i] == sig[i]) i++;
    CHECK(i == want, "long-message", "%s: signature of a message of %llu bytes differs from the specified one from byte %u (%s): %s instead of %s; sk %s", s->r->name,
          (unsigned long long)len, i, i < n ? "R" : "FORS part", hex(out, want), hex(sig, want), hex(sk, 4 * n));
    stat_add("evaluations", 1);
    stat_add("signature prefixes compared", 1);
    stat_add("MiB of message signed", (uint64_t)len >> 20);
}
static int verify(rng *r, const hset *s, const uint8_t *pk, const uint8_t *m, uint64_t len, const uint8_t *sg) {
    vres v = h_lib_verify(r, s, pk, m, len, sg, ref_siglen(s->r), 0, 0);
    stat_add("evaluations", 1);
    stat_add("MiB of message verified", (uint64_t)len >> 20);
    return v.final;
}

static uint64_t pick_len(rng *r) {
    if (!strcmp(h_tag, "K")) return rnd_below(r, 2) ? rnd_in(r, 65400, 65800) : rnd_in(r, 1, 140000); /* slow */
    static const uint64_t edge[] = {1u << 8, 1u << 12, 1u << 15, 1u << 16, 1u << 16, 1u << 16, 1u << 17, 1u << 18, 1u << 20, 1u << 21, 1u << 24, 1u << 25, 3u << 16, 136 * 500, 128 * 1024, 72 * 1000};
    uint64_t e = edge[rnd_below(r, sizeof edge / sizeof *edge)];
    switch (rnd_below(r, 5)) {
    case 0: return e;
    case 1: return e + rnd_below(r, 200);
    case 2: return e - 1 - rnd_below(r, 199);
    case 3: return rnd_in(r, 1, 5000);
    default: return rnd_in(r, 1, 1u << (1 + rnd_below(r, 22)));
    }
}

static void big_case(int i, rng *r) {
    const hset *s = todo[i].s;
    const ref_ps *ps = s->r;
    unsigned n = ps->n;
    uint64_t len = todo[i].len;
    uint8_t sk[128], seed[96], opt[32];
    rnd_fill(r, seed, 96);
    ref_keygen(ps, seed, sk);
    rnd_fill(r, opt, 32);
    distinct(hash64(sk, 4 * n, len));
    sample("%s: message of %llu bytes (%s)", ps->name, (unsigned long long)len, todo[i].kind == 0 ? "signed" : todo[i].kind == 1 ? "offered with the signature of its first 5 bytes" : todo[i].kind == 3 ? "verified" : "signed, verified, changed");
    if (todo[i].kind == 0) { sign_check(r, s, sk, buf, len, opt); return; }
    if (todo[i].kind == 1) {
        ref_sign(ps, sk, opt, buf, (uint32_t)len, sig);
        CHECK(!verify(r, s, sk + 2 * n, buf, len, sig), "long-accepted", "%s: the signature of a %u-byte message was accepted for one of %llu bytes with the same beginning; sk %s", ps->name,
              (unsigned)len, (unsigned long long)len, hex(sk, 4 * n));
        stat_add("changed messages", 1);
        if (!h_thorough) return;
    } else if (todo[i].kind == 2)
        sign_check(r, s, sk, buf, len, opt);
    ref_sign(ps, sk, opt, buf, len, sig);
    CHECK(verify(r, s, sk + 2 * n, buf, len, sig), "long-refused", "%s: the honest signature of a message of %llu bytes was refused; sk %s opt %s", ps->name, (unsigned long long)len, hex(sk, 4 * n), hex(opt, n));
    if (todo[i].kind == 3 && !h_thorough) return;
    uint64_t at[4] = {len - 1, len / 2 + rnd_below(r, len / 4), 0, rnd_below(r, len)};
    for (int k = 0; k < (h_thorough ? 4 : 1); k++) {
        poke(at[k], (uint8_t)rnd_in(r, 1, 255));
        CHECK(!verify(r, s, sk + 2 * n, buf, len, sig), "long-accepted", "%s: message of %llu bytes changed at byte %llu, accepted; sk %s", ps->name, (unsigned long long)len, (unsigned long long)at[k], hex(sk, 4 * n));
        unpoke(at[k]);
        stat_add("changed messages", 1);
    }
}

void h_case(uint64_t id, rng *r) {
    if (id < (uint64_t)nbig) { big_case((int)id, r); return; }
    int k;
    const hset *s = h_plan_set(id - (uint64_t)nbig, &k);
    const ref_ps *ps = s->r;
    unsigned n = ps->n;
    uint8_t sk[128], seed[96], opt[32];
    rnd_fill(r, seed, 96);
    memcpy(sk, seed, 96);
    if (h_is_s(ps)) memcpy(sk + 3 * n, "not the root, for R and FORS only", n); else ref_keygen(ps, seed, sk);
    rnd_fill(r, opt, 32);
    for (int j = 0; j < 6; j++) {
        uint64_t len = pick_len(r), off = rnd_below(r, 1000);
        sign_check(r, s, sk, buf + off, len, rnd(r) & 3 ? opt : 0);
        distinct(hash64(sk, 4 * n, len));
    }
    if (h_is_s(ps)) ref_keygen(ps, seed, sk);
    uint64_t len = pick_len(r), off = rnd_below(r, 1000);
    if (len > 1u << 21 && k) len = 65536 + rnd_below(r, 300);
    uint8_t *m = buf + off;
    ref_sign(ps, sk, opt, m, len, sig);
    CHECK(verify(r, s, sk + 2 * n, m, len, sig), "long-refused", "%s: the honest signature of a message of %llu bytes was refused; sk %s opt %s", ps->name, (unsigned long long)len, hex(sk, 4 * n), hex(opt, n));
    distinct(hash64(sk, 4 * n, len + 7));
    for (int j = 0; j < 10; j++) {
        uint64_t at;
        uint8_t x = (uint8_t)(1u << rnd_below(r, 8));
        switch (j) {
        case 0: at = len - 1; break;
        case 1: at = 0; break;
        case 2: at = len > 150 ? len - 1 - rnd_below(r, 150) : rnd_below(r, len); break;
        case 3: at = len > 65536 ? 65535 + rnd_below(r, 2) : rnd_below(r, len); break;
        case 4: at = len > 256 ? 255 + rnd_below(r, 2) : rnd_below(r, len); break;
        default: at = rnd_below(r, len); break;
        }
        if (at >= len) at = len - 1;
        poke(off + at, x);
        CHECK(!verify(r, s, sk + 2 * n, m, len, sig), "long-accepted", "%s: message of %llu bytes changed at byte %llu (xor %02x), accepted; sk %s", ps->name, (unsigned long long)len, (unsigned long long)at, x, hex(sk, 4 * n));
        unpoke(off + at);
        stat_add("changed messages", 1);
    }
    for (int j = 0; j < 10; j++) {
        uint64_t l2;
        switch (j) {
        case 0: l2 = len - 1; break;
        case 1: l2 = len + 1; break;
        case 2: l2 = len + 65536; break;
        case 3: l2 = len & 0xffff; break;
        case 4: l2 = len & 0xff; break;
        case 5: l2 = len + (ps->sha2 ? (n == 16 ? 64 : 128) : 136); break;
        case 6: l2 = len > 200 ? len - (ps->sha2 ? (n == 16 ? 64 : 128) : 136) : 0; break;
        case 7: l2 = len ^ (1ull << rnd_below(r, 22)); break;
        case 8: l2 = rnd_below(r, len); break;
        default: l2 = len + (1u << 24); break;
        }
        if (l2 == len || l2 > 3 * UNIT || (j == 9 && (k || !strcmp(h_tag, "K")))) continue;
        CHECK(!verify(r, s, sk + 2 * n, m, l2, sig), "long-accepted", "%s: message cut or extended from %llu to %llu bytes, accepted; sk %s", ps->name, (unsigned long long)len, (unsigned long long)l2, hex(sk, 4 * n));
        stat_add("lengths changed", 1);
    }
    if (k == 0) sample("%s: message of %llu bytes: accepted as it is, refused after 10 changes of one byte and of its length", ps->name, (unsigned long long)len);
}
void h_final(void) {}
