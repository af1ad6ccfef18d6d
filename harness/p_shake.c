/*
 * C13: SHAKE256 against OpenSSL: every length, any absorb and squeeze splits, long inputs and outputs.
 */
#define _GNU_SOURCE
#include <openssl/evp.h>
#include <sys/mman.h>
#include <unistd.h>
#include "h.h"
double h_case_cpu_limit = 300;

#define LENS 850
static int nbig;
uint64_t h_ncases(void) {
    nbig = strstr(h_mode, "huge") ? 3 : strstr(h_mode, "big") ? 2 : 0;
    return (uint64_t)nbig + LENS;
}
static void ossl(const uint8_t *m, size_t n, uint8_t *o, size_t on) {
    EVP_MD_CTX *c = EVP_MD_CTX_new();
    if (!c || !EVP_DigestInit_ex(c, EVP_shake256(), 0) || !EVP_DigestUpdate(c, m, n) || !EVP_DigestFinalXOF(c, o, on)) exit(3);
    EVP_MD_CTX_free(c);
}
static size_t piece(rng *r, int style, size_t left, int first) {
    size_t k;
    switch (style) {
    case 0: k = left; break;
    case 1: k = 1; break;
    case 2: k = 136; break;
    case 3: k = rnd_in(r, 135, 137); break;
    case 4: k = rnd_in(r, 0, 5); break;
    case 5: k = rnd_in(r, 1, 420); break;
    case 6: k = 8 * rnd_in(r, 0, 20); break;
    default: k = first ? rnd_in(r, 1, 271) : rnd_in(r, 0, 500); break;
    }
    return k > left ? left : k;
}
static void run(rng *r, const uint8_t *m, size_t len, size_t outlen, int as, int ss, const char *what) {
    SHAKE256_CTX c;
    static uint8_t want[1 << 20];
    uint8_t dummy;
    if (outlen > sizeof want) outlen = sizeof want;
    ossl(m, len, want, outlen ? outlen : 1);
    rnd_fill(r, &c, sizeof c);
    ts_shake256_inc_init(&c);
    for (size_t d = 0; d < len;) {
        size_t k = piece(r, as, len - d, !d);
        ts_shake256_inc_absorb(&c, k ? m + d : &dummy, k);
        d += k;
    }
    if (rnd_below(r, 3) == 0) ts_shake256_inc_absorb(&c, &dummy, 0);
    ts_shake256_inc_finalize(&c);
    for (size_t d = 0; d < outlen;) {
        size_t k = piece(r, ss, outlen - d, !d);
        gbuf o = gb_newa(k, (unsigned)rnd_below(r, 16));
        if (k) memset(o.p, 0x77, k);
        ts_shake256_inc_squeeze(o.p, k, &c);
        if (memcmp(o.p, want + d, k)) {
            viol("output", "SHAKE256 of %zu bytes (%s, absorb style %d): output bytes %zu..%zu are wrong (squeeze style %d)", len, what, as, d, d + k - 1, ss);
            gb_free(&o);
            return;
        }
        CHECK(gb_ok(&o), "overrun", "SHAKE256: squeezing %zu bytes writes outside them", k);
        gb_free(&o);
        d += k;
    }
    stat_add("evaluations", 1);
    stat_add("squeezed bytes", outlen);
    stat_add("absorbed bytes", len);
    distinct(hash64(m, len > 5000 ? 5000 : len, (uint64_t)(as * 8 + ss)) ^ outlen);
}
void h_case(uint64_t id, rng *r) {
    if (id < (uint64_t)nbig) {
        static const uint64_t l[3] = {(64u << 20) + 77, 1, (1ull << 32) + 9};
        if (id == 1) { /* a long output */
            uint8_t m[40];
            rnd_fill(r, m, 40);
            for (int i = 0; i < 6; i++) run(r, m, 40, 1 << 20, 0, i == 5 ? 7 : i, "long output");
            sample("one megabyte squeezed in 6 ways");
            return;
        }
        uint64_t len = l[id], unit = 16u << 20, tot = (len + unit - 1) / unit * unit;
        int fd = memfd_create("m", 0);
        if (fd < 0 || ftruncate(fd, (off_t)unit)) exit(3);
        uint8_t *b = mmap(0, tot, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (b == MAP_FAILED) exit(3);
        for (uint64_t o = 0; o < tot; o += unit)
            if (mmap(b + o, unit, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) exit(3);
        close(fd);
        rnd_fill(r, b, unit);
        run(r, b, len, 200, 0, 0, "one huge piece");
        munmap(b, tot);
        sample("%llu bytes absorbed in one piece", (unsigned long long)len);
        return;
    }
    size_t len = id - (uint64_t)nbig;
    int rounds = (int)(10 * h_scale + .5);
    if (rounds < 1) rounds = 1;
    gbuf m = gb_newa(len, (unsigned)rnd_below(r, 16));
    for (int q = 0; q < rounds; q++) {
        h_msg_fill(r, m.p, len);
        static const unsigned edge[] = {1, 31, 32, 64, 135, 136, 137, 272, 273, 408, 409};
        size_t on = rnd_below(r, 3) ? rnd_below(r, 500) : rnd_below(r, 8) ? edge[rnd_below(r, 11)] : rnd_below(r, 6000);
        run(r, m.p, len, on, q ? (int)rnd_below(r, 8) : 1, q ? (int)rnd_below(r, 8) : 1, "in pieces");
    }
    gb_free(&m);
    if (len % 171 == 0) sample("%zu-byte inputs in %d ways of absorbing and squeezing", len, rounds);
}
