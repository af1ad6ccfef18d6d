/*
 * C12: SHA-256 and SHA-512 interfaces against OpenSSL: every length, any split into updates,
 * truncated finalisation without overrun, saved and restored states, messages beyond 2^32 bits
 * and (thorough, or "huge") beyond 2^32 bytes.
 */
#define _GNU_SOURCE
#include <sys/mman.h>
#include <unistd.h>
#include "h.h"
double h_case_cpu_limit = 300;

#define LENS 1100
static int nbig;
static const struct { int w; uint64_t len; int one; const char *what; } bigs[] = {
    {0, (1ull << 29) - 1, 1, "2^32 - 8 bits"},  {1, (1ull << 29) - 1, 1, "2^32 - 8 bits"},
    {0, (1ull << 29) + 9, 1, "2^32 bits and 9 bytes"}, {1, (1ull << 29) + 9, 1, "2^32 bits and 9 bytes"},
    {0, (1ull << 29) + 63, 0, "2^32 bits and 63 bytes, in pieces"}, {1, (1ull << 29) + 127, 0, "2^32 bits and 127 bytes, in pieces"},
    {1, (1ull << 32) + 5, 1, "2^32 + 5 bytes"}, {0, (1ull << 32) + 5, 1, "2^32 + 5 bytes"},
};
uint64_t h_ncases(void) {
    nbig = strstr(h_mode, "huge") ? 8 : strstr(h_mode, "big") ? 6 : 0;
    return (uint64_t)nbig + LENS;
}

/* a large non-uniform buffer in little memory: one file mapped over and over */
static uint8_t *bigbuf(uint64_t len) {
    uint64_t unit = 16u << 20;
    int fd = memfd_create("m", 0);
    if (fd < 0 || ftruncate(fd, (off_t)unit)) exit(3);
    uint64_t tot = (len + unit - 1) / unit * unit;
    uint8_t *b = mmap(0, tot, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (b == MAP_FAILED) exit(3);
    for (uint64_t o = 0; o < tot; o += unit)
        if (mmap(b + o, unit, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) exit(3);
    rng r;
    rng_init(&r, 5, 6, 7);
    rnd_fill(&r, b, unit);
    close(fd);
    return b;
}

typedef union { SHA256_CTX a; SHA512_CTX b; } ctxu;
static void init(int w, ctxu *c) { if (w) ts_SHA512_init(&c->b); else ts_SHA256_init(&c->a); }
static void upd(int w, ctxu *c, const void *m, uint64_t n) { if (w) ts_SHA512_update(&c->b, m, n); else ts_SHA256_update(&c->a, m, n); }

static const char *nm[2] = {"SHA-256", "SHA-512"};

/* finalisation in its full or truncated form, into an exact buffer */
static void fin_check(rng *r, int w, ctxu *c, const uint8_t *want, const char *what, uint64_t len, int force) {
    unsigned full = w ? 64 : 32, step = w ? 8 : 4, t = full;
    int trunc = (int)(rnd(r) & 1);
    if (force >= 0) trunc = force;
    if (trunc) t = step * (unsigned)rnd_in(r, 1, full / step);
    gbuf o = gb_newa(t, (unsigned)rnd_below(r, 16));
    memset(o.p, 0x99, t);
    if (w) { if (trunc) ts_SHA512_final_trunc(o.p, &c->b, t); else ts_SHA512_final(o.p, &c->b); }
    else { if (trunc) ts_SHA256_final_trunc(o.p, &c->a, t); else ts_SHA256_final(o.p, &c->a); }
    CHECK(!memcmp(o.p, want, t), "digest", "%s of a %llu-byte message (%s), first %u bytes: %s instead of %s", nm[w], (unsigned long long)len, what, t, hex(o.p, t), hex(want, t));
    CHECK(gb_ok(&o), "overrun", "%s of a %llu-byte message (%s) writes beyond %u bytes of digest", nm[w], (unsigned long long)len, what, t);
    gb_free(&o);
    stat_add("evaluations", 1);
    stat_add(trunc ? "truncated digests" : "full digests", 1);
}
static void ref(int w, const uint8_t *m, size_t n, uint8_t *o) { if (w) ref_sha512(m, n, o); else ref_sha256(m, n, o); }

static void feed(rng *r, int w, ctxu *c, const uint8_t *m, size_t len, int style) {
    size_t bs = w ? 128 : 64, d = 0;
    uint8_t dummy;
    while (d < len) {
        size_t k;
        switch (style) {
        case 0: k = len - d; break;
        case 1: k = 1; break;
        case 2: k = bs; break;
        case 3: k = rnd_in(r, bs - 1, bs + 1); break;
        case 4: k = rnd_in(r, 0, 5); break;
        case 5: k = rnd_in(r, 1, 3 * bs); break;
        default: k = d ? rnd_in(r, 0, 400) : rnd_in(r, 1, 2 * bs - 1); break;
        }
        if (k > len - d) k = len - d;
        upd(w, c, k ? m + d : &dummy, k);
        d += k;
    }
    if (rnd_below(r, 3) == 0) upd(w, c, &dummy, 0);
}

void h_case(uint64_t id, rng *r) {
    ctxu c;
    uint8_t want[64];
    if (id < (uint64_t)nbig) {
        int w = bigs[id].w;
        uint64_t len = bigs[id].len, d = 0;
        uint8_t *b = bigbuf(len);
        ref(w, b, len, want);
        rnd_fill(r, &c, sizeof c);
        init(w, &c);
        if (bigs[id].one) upd(w, &c, b, len);
        else while (d < len) {
            uint64_t k = rnd_in(r, 1, 3u << 20);
            if (k > len - d) k = len - d;
            upd(w, &c, b + d, k);
            d += k;
        }
        fin_check(r, w, &c, want, bigs[id].what, len, 0);
        munmap(b, (len + (16u << 20) - 1) >> 24 << 24);
        distinct(id + 99);
        stat_add("messages beyond 2^32 bits", 1);
        sample("%s of a message of %s", nm[w], bigs[id].what);
        return;
    }
    size_t len = id - (uint64_t)nbig;
    int rounds = (int)(6 * h_scale + .5);
    if (rounds < 1) rounds = 1;
    for (int w = 0; w < 2; w++)
        for (int q = 0; q < rounds; q++) {
            gbuf m = gb_newa(len, (unsigned)rnd_below(r, 16));
            h_msg_fill(r, m.p, len);
            ref(w, m.p, len, want);
            int style = q == 0 ? 0 : q == 1 ? 1 : (int)rnd_below(r, 7);
            rnd_fill(r, &c, sizeof c);
            init(w, &c);
            feed(r, w, &c, m.p, len, style);
            fin_check(r, w, &c, want, "split into updates", len, -1);
            if (rnd(r) & 1) { /* a finished context can be started again */
                init(w, &c);
                feed(r, w, &c, m.p, len, 0);
                fin_check(r, w, &c, want, "in a context used before", len, -1);
            }
            distinct(hash64(m.p, len, (uint64_t)(w * 8 + style)));
            /* saved state: one block, then any number of continuations */
            size_t bs = w ? 128 : 64;
            gbuf f = gb_newa(bs + len, (unsigned)rnd_below(r, 16));
            h_msg_fill(r, f.p, bs);
            memcpy(f.p + bs, m.p, len);
            uint32_t s32[8 + 2] = {0};
            uint64_t s64[8 + 2] = {0};
            s32[0] = s32[9] = 0xabcdef01;
            s64[0] = s64[9] = 0xabcdef01abcdef01;
            init(w, &c);
            feed(r, w, &c, f.p, bs, (int)rnd_below(r, 7));
            if (w) ts_SHA512_save_state(s64 + 1, &c.b); else ts_SHA256_save_state(s32 + 1, &c.a);
            uint64_t h0 = hash64(s64, sizeof s64, 0) ^ hash64(s32, sizeof s32, 0);
            CHECK(s32[0] == 0xabcdef01 && s32[9] == 0xabcdef01 && s64[0] == 0xabcdef01abcdef01 && s64[9] == 0xabcdef01abcdef01,
                  "save-overrun", "%s: saving the state writes outside its eight words", nm[w]);
            ref(w, f.p, bs + len, want);
            if (rnd(r) & 1) { /* saving leaves the computation as it was */
                feed(r, w, &c, f.p + bs, len, (int)rnd_below(r, 7));
                fin_check(r, w, &c, want, "after its state was saved", bs + len, -1);
            }
            for (int t = 0; t < 3; t++) {
                size_t l2 = t == 0 ? len : rnd_below(r, len + 1);
                if (t) ref(w, f.p, bs + l2, want);
                rnd_fill(r, &c, sizeof c);
                if (w) ts_SHA512_restore_state_after_128(&c.b, s64 + 1); else ts_SHA256_restore_state_after_64(&c.a, s32 + 1);
                if (t == 1) { /* a state restored can be saved again */
                    if (w) ts_SHA512_save_state(s64 + 1, &c.b); else ts_SHA256_save_state(s32 + 1, &c.a);
                }
                feed(r, w, &c, f.p + bs, l2, (int)rnd_below(r, 7));
                fin_check(r, w, &c, want, "continued from a saved state", bs + l2, -1);
                stat_add("continuations of saved states", 1);
            }
            CHECK(h0 == (hash64(s64, sizeof s64, 0) ^ hash64(s32, sizeof s32, 0)), "save-changed", "%s: restoring or saving again changes a saved state", nm[w]);
            gb_free(&f);
            gb_free(&m);
        }
    if (len % 211 == 0) sample("%zu-byte messages in %d ways, whole and after a saved block", len, rounds);
}
