/*
 * C07: the library on a 32-bit target without libc (size_t, long and pointers of 32 bits).
 * Reads the fixture file on stdin, prints one line per comparison that fails and a summary.
 */
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include "tiny_sphincs.h"

static long sc(int n, long a, long b, long c) {
    long r;
    __asm__ volatile("int $0x80" : "=a"(r) : "a"(n), "b"(a), "c"(b), "d"(c) : "memory");
    return r;
}
void *memcpy(void *d, const void *s, size_t n) {
    uint8_t *a = d;
    const uint8_t *b = s;
    while (n--) { *a++ = *b++; __asm__ volatile("" ::: "memory"); }
    return d;
}
void *memmove(void *d, const void *s, size_t n) {
    uint8_t *a = d;
    const uint8_t *b = s;
    if (a < b) return memcpy(d, s, n);
    while (n--) { a[n] = b[n]; __asm__ volatile("" ::: "memory"); }
    return d;
}
void *memset(void *d, int v, size_t n) {
    uint8_t *a = d;
    while (n--) { *a++ = (uint8_t)v; __asm__ volatile("" ::: "memory"); }
    return d;
}
int memcmp(const void *x, const void *y, size_t n) {
    const uint8_t *a = x, *b = y;
    for (; n; n--, a++, b++) if (*a != *b) return *a < *b ? -1 : 1;
    return 0;
}
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
uint64_t __udivmoddi4(uint64_t a, uint64_t b, uint64_t *rem) {
    uint64_t q = 0, r = 0;
    for (int i = 63; i >= 0; i--) {
        r = (r << 1) | ((a >> i) & 1);
        if (r >= b) { r -= b; q |= 1ull << i; }
    }
    if (rem) *rem = r;
    return q;
}
uint64_t __udivdi3(uint64_t a, uint64_t b) { return __udivmoddi4(a, b, 0); }
uint64_t __umoddi3(uint64_t a, uint64_t b) { uint64_t r; __udivmoddi4(a, b, &r); return r; }

static void out(const char *s) { sc(4, 1, (long)s, (long)strlen(s)); }
static void num(unsigned v) {
    char b[12], *p = b + 11;
    *p = 0;
    do *--p = (char)('0' + v % 10); while (v /= 10);
    out(p);
}
static int rd(void *p, unsigned n) {
    uint8_t *q = p;
    unsigned d = 0;
    while (d < n) {
        long k = sc(3, 0, (long)(q + d), (long)(n - d));
        if (k <= 0) return 0;
        d += (unsigned)k;
    }
    return 1;
}
static const struct { unsigned i; const struct ts_parameter_set *ps; const char *name; } tab[] = {
#define ENT(i, s) {i, &ts_ps_##s##_simple, #s},
#if TS_SUPPORT_SHA2
    ENT(1, sha2_128f)
#if TS_SUPPORT_S
    ENT(0, sha2_128s)
#endif
#if TS_SUPPORT_L3 || TS_SUPPORT_L5
    ENT(3, sha2_192f)
#if TS_SUPPORT_S
    ENT(2, sha2_192s)
#endif
#endif
#if TS_SUPPORT_L5
    ENT(5, sha2_256f)
#if TS_SUPPORT_S
    ENT(4, sha2_256s)
#endif
#endif
#endif
#if TS_SUPPORT_SHAKE
    ENT(7, shake_128f)
#if TS_SUPPORT_S
    ENT(6, shake_128s)
#endif
#if TS_SUPPORT_L3 || TS_SUPPORT_L5
    ENT(9, shake_192f)
#if TS_SUPPORT_S
    ENT(8, shake_192s)
#endif
#endif
#if TS_SUPPORT_L5
    ENT(11, shake_256f)
#if TS_SUPPORT_S
    ENT(10, shake_256s)
#endif
#endif
#endif
};
static const uint8_t *ent;
static unsigned ent_left;
static int rng(unsigned char *p, size_t n) {
    if (n > ent_left) return 0;
    memcpy(p, ent, n);
    ent += n;
    ent_left -= n;
    return 1;
}
static uint8_t msg[20000], sig[52000], o[52000];
static struct ts_context c;
static unsigned evals, bad;
static void fail(const char *set, const char *what, unsigned at) {
    bad++;
    out("VIOL\t");
    out(what);
    out("\t0\t");
    out(set);
    out(" [32-bit]: ");
    out(what);
    out(" differs from the specification, at ");
    num(at);
    out("\n");
}
static void run(void) {
    uint32_t h[8];
    uint8_t sk[128], opt[32], k[128], pk[64];
    while (rd(h, 32)) {
        unsigned n = h[2], sl = h[3], ml = h[4], i, j;
        if (h[0] != 0x46583031 || ml > sizeof msg || sl > sizeof sig) { out("BAD\n"); return; }
        if (!rd(sk, 128) || !rd(opt, 32) || (ml && !rd(msg, ml)) || !rd(sig, sl)) { out("BAD\n"); return; }
        for (j = 0; j < sizeof tab / sizeof *tab && tab[j].i != h[1]; j++) {}
        if (j == sizeof tab / sizeof *tab) continue;
        const struct ts_parameter_set *ps = tab[j].ps;
        int slow = !(h[1] & 1);
        if (ts_size_signature(ps) != sl || ts_size_private_key(ps) != 4 * n || ts_size_public_key(ps) != 2 * n) fail(tab[j].name, "size", 0);
        evals++;
        if (!slow) {
            ent = sk, ent_left = 3 * n;
            memset(k, 0, sizeof k);
            if (ts_gen_key(k, pk, ps, rng) != 1 || memcmp(k, sk, 4 * n) || memcmp(pk, sk + 2 * n, 2 * n)) fail(tab[j].name, "keygen", 0);
            evals++;
        }
        unsigned want = slow ? 3 * n : sl, d = 0, g;
        memset(&c, 0xA5, sizeof c);
        memset(o, 0, sizeof o);
        ent = opt, ent_left = n;
        ts_init_sign(&c, msg, ml, ps, sk, h[5] ? 0 : rng);
        /* (the last request is for as much as an unsigned can express) */
        while (d < want && (g = ts_sign(o + d, slow ? (want - d < 333 ? want - d : 333) : (want - d < 333 ? 0xffffffffu - d % 3 : 333), &c))) d += g;
        for (i = 0; i < want && o[i] == sig[i]; i++) {}
        if (d != want || i != want) fail(tab[j].name, "signature", i);
        if (!slow && ts_sign(o, 10, &c)) fail(tab[j].name, "signature length", sl);
        evals++;
        for (int t = 0; t < 3; t++) {
            unsigned at = (sl / 7) * (unsigned)(t + 1);
            memset(&c, 0x5A, sizeof c);
            if (t) sig[at] ^= 4;
            ts_init_verify(&c, msg, ml, ps, sk + 2 * n);
            for (d = 0; d < sl; d += g) {
                g = sl - d < 1000 ? sl - d : 1000;
                (void)ts_update_verify(sig + d, g, &c);
            }
            if (ts_verify(&c) != (t == 0)) fail(tab[j].name, "verdict", (unsigned)t);
            if (t) sig[at] ^= 4;
            evals++;
        }
    }
}
__attribute__((force_align_arg_pointer)) void _start(void) {
    run();
    out("STAT\tevaluations\t");
    num(evals);
    out("\nSTAT\tcontext bytes\t");
    num(sizeof c);
    out("\nDONE\t1\t1\n");
    sc(1, bad != 0, 0, 0);
    for (;;) {}
}
