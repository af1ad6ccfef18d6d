/*
 * C06: only the exact length is accepted, and a verification that has failed, or has been given too
 * much, never succeeds again, whatever it is given next.
 */
#define _GNU_SOURCE
#include <sys/mman.h>
#include "h.h"
double h_case_cpu_limit = 60;

uint64_t h_ncases(void) {
    fx_build(2, 1);
    return h_plan(36, 30);
}

static struct ts_context *C;
static void start(rng *r, const hset *s, const fx *f, const uint8_t *msg, size_t mlen) {
    if (!C) C = malloc(sizeof *C);
    rnd_fill(r, C, sizeof *C);
    ts_init_verify(C, msg, mlen, s->ps, f->pk);
}
static int feed(rng *r, const uint8_t *p, size_t len, int style, unsigned n) {
    size_t d = 0;
    int all = 1;
    while (d < len) {
        size_t k = h_chunk(r, style, n);
        if (k > len - d) k = len - d;
        if (!ts_update_verify(p + d, (unsigned)k, C)) all = 0;
        d += k;
    }
    return all;
}
/* once a failure has been reported, every later update reports it too */
static void must_report(int u, const hset *s, const char *what, unsigned a) {
    stat_add("updates that must report failure", 1);
    CHECK(u == 0, "unreported", "%s: %s (%u): the update returns %d", s->r->name, what, a, u);
}
static void feed_failed(rng *r, const hset *s, const uint8_t *p, size_t len, int style, unsigned n) {
    size_t d = 0;
    while (d < len) {
        size_t k = h_chunk(r, style, n);
        if (k > len - d) k = len - d;
        must_report(ts_update_verify(p + d, (unsigned)k, C), s, "an update after a reported failure (bytes)", (unsigned)k);
        d += k;
    }
}
static void must_fail(const hset *s, const char *key, const char *what, unsigned a, unsigned b) {
    stat_add("evaluations", 1);
    CHECK(ts_verify(C) == 0, key, "%s: %s (%u, %u): reported as a valid signature", s->r->name, what, a, b);
}

void h_case(uint64_t id, rng *r) {
    int k;
    const hset *s = h_plan_set(id, &k);
    const fx *f = fx_get(s, (int)(rnd(r) & 0xff));
    unsigned n = f->n, sl = f->siglen;
    static uint8_t ext[SIGMAX + 70000];
    memcpy(ext, f->sig, sl);
    int fill = (int)rnd_below(r, 4);
    if (fill == 0) memset(ext + sl, 0, 70000);
    else if (fill == 1) memcpy(ext + sl, f->sig, sl);
    else if (fill == 2) memcpy(ext + sl, f->sig + sl - n, n), rnd_fill(r, ext + sl + n, 70000 - n);
    else rnd_fill(r, ext + sl, 70000);
    int st = (int)rnd_below(r, H_CHUNK_STYLES);
    distinct(hash64(f->sig, 64, (uint64_t)(k * 13 + fill)));
    switch (k % 12) {
    case 0: { /* every proper prefix, byte by byte */
        start(r, s, f, f->msg, f->mlen);
        must_fail(s, "short-accepted", "nothing fed yet", 0, 0);
        for (unsigned i = 0; i < sl; i++) {
            int u = ts_update_verify(f->sig + i, 1, C);
            if (!u) { viol("accept-update", "%s: byte %u of an honest signature refused", s->r->name, i); return; }
            if (i + 1 < sl && ts_verify(C)) { viol("short-accepted", "%s: success after %u of %u bytes", s->r->name, i + 1, sl); return; }
        }
        stat_add("evaluations", sl);
        CHECK(ts_verify(C) == 1, "accept-final", "%s: honest signature fed byte by byte refused", s->r->name);
        sample("%s: %u prefixes polled, success only at the end", s->r->name, sl - 1);
        /* then single extra bytes, polled each time */
        unsigned lim = k < 12 ? 70 : 70000; /* past any counter of 16 bits */
        for (unsigned i = 0; i < lim; i++) {
            (void)ts_update_verify(ext + sl + i, 1, C);
            must_fail(s, "long-accepted", "bytes after the end, one at a time (extra)", i + 1, 0);
        }
        break;
    }
    case 1: case 2: { /* truncated in other chunkings */
        for (int j = 0; j < 4; j++) {
            unsigned cut = j == 0 ? sl - 1 : j == 1 ? sl - n : j == 2 ? (unsigned)rnd_below(r, sl / n) * n : (unsigned)rnd_below(r, sl);
            start(r, s, f, f->msg, f->mlen);
            feed(r, f->sig, cut, (st + j) % H_CHUNK_STYLES, n);
            must_fail(s, "short-accepted", "truncated signature (bytes fed)", cut, 0);
        }
        break;
    }
    case 3: case 4: case 5: { /* the last chunk overshoots the end */
        static const unsigned over[] = {1, 2, 15, 16, 17, 23, 24, 25, 31, 32, 33, 48, 64, 65, 96, 128, 255, 256, 257, 511, 512, 4096, 65535, 65536};
        for (int j = 0; j < 5; j++) {
            unsigned e = over[rnd_below(r, sizeof over / sizeof *over)];
            if (j == 0) e = n;
            if (j == 1) e = n * (unsigned)rnd_in(r, 1, 20);
            unsigned back = j == 2 ? sl : (unsigned)rnd_below(r, 3 * n + 1);
            start(r, s, f, f->msg, f->mlen);
            feed(r, f->sig, sl - back, st, n);
            int u = ts_update_verify(ext + sl - back, back + e, C);
            if (back) must_report(u, s, "an update that goes past the end (overshoot)", e);
            must_fail(s, "long-accepted", "last chunk overshoots (chunk, overshoot)", back + e, e);
            (void)ts_update_verify(ext, 0, C);
            must_fail(s, "long-accepted", "the same, then an empty update", back + e, e);
            if (back) feed_failed(r, s, ext, n * 3, st, n);
            else feed(r, ext, n * 3, st, n);
            must_fail(s, "long-accepted", "the same, then more", back + e, e);
        }
        break;
    }
    case 6: case 7: { /* extra data in chunks of its own */
        for (int j = 0; j < 6; j++) {
            unsigned e = j < 2 ? n * (unsigned)rnd_in(r, 1, 4) : (unsigned)rnd_in(r, 1, 4 * n);
            if (j == 5) e = 256 * (unsigned)rnd_in(r, 1, 3);
            start(r, s, f, f->msg, f->mlen);
            feed(r, f->sig, sl, st, n);
            unsigned d = 0;
            int st2 = j == 0 ? 1 : j == 1 ? 0 : (int)rnd_below(r, H_CHUNK_STYLES);
            while (d < e) {
                unsigned c = h_chunk(r, st2, n);
                if (c > e - d) c = e - d;
                (void)ts_update_verify(ext + sl + d, c, C);
                d += c;
                if (d) must_fail(s, "long-accepted", "extra chunk after the end (total extra)", d, c);
            }
        }
        break;
    }
    case 8: case 9: { /* failed, then given everything again */
        for (int j = 0; j < 3; j++) {
            unsigned pos = (unsigned)rnd_below(r, sl);
            memcpy(ext, f->sig, sl);
            ext[pos] ^= (uint8_t)(1u << rnd_below(r, 8));
            start(r, s, f, f->msg, f->mlen);
            must_report(feed(r, ext, sl, st, n), s, "the updates of a complete bad signature, all of them (byte changed)", pos);
            must_fail(s, "recovered", "bad signature (byte changed)", pos, 0);
            for (int rep = 0; rep < 2; rep++) {
                feed_failed(r, s, f->sig, sl, (st + rep) % H_CHUNK_STYLES, n);
                must_fail(s, "recovered", "bad signature followed by the good one (byte, times)", pos, (unsigned)rep + 1);
            }
            feed_failed(r, s, f->sig + sl - n, n, 1, n);
            must_fail(s, "recovered", "bad signature followed by the last block of the good one (byte)", pos, 0);
            feed_failed(r, s, f->sig + n, sl - n, 5, n);
            must_fail(s, "recovered", "bad signature followed by the good one without R (byte)", pos, 0);
        }
        break;
    }
    case 10: { /* succeeded, given more, then the whole again */
        start(r, s, f, f->msg, f->mlen);
        feed(r, f->sig, sl, st, n);
        CHECK(ts_verify(C) == 1, "accept-final", "%s: honest signature refused", s->r->name);
        for (int j = 0; j < 3; j++) {
            feed(r, f->sig, sl, (st + j) % H_CHUNK_STYLES, n);
            must_fail(s, "long-accepted", "the signature several times over", (unsigned)j + 2, 0);
        }
        unsigned tot = 0;
        for (unsigned i = 0; i < 700; i++) {
            (void)ts_update_verify(ext + sl + i, 1, C);
            tot++;
            must_fail(s, "long-accepted", "after several signatures, single bytes", tot, 0);
        }
        break;
    }
    default: { /* enormous updates */
        static uint8_t *big;
        if (!big) {
            big = mmap(0, (1ull << 32) + 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (big == MAP_FAILED) abort();
        }
        static const unsigned huge[] = {0xffffffffu, 0x80000000u, 0x7fffffffu, 0x80000001u, 0xfffffffeu, 65536u, 131072u};
        memcpy(big, f->sig, sl);
        for (unsigned j = 0; j < 7; j++) {
            unsigned m = huge[j];
            start(r, s, f, f->msg, f->mlen);
            (void)ts_update_verify(big, m, C);
            must_fail(s, "long-accepted", "one update with a valid signature and more (update size)", m, 0);
            start(r, s, f, f->msg, f->mlen);
            feed(r, f->sig, sl - 5, 5, n);
            memcpy(big, f->sig + sl - 5, 5);
            (void)ts_update_verify(big, m, C);
            must_fail(s, "long-accepted", "the end of a signature and more (update size)", m, 0);
            memcpy(big, f->sig, sl);
            start(r, s, f, f->msg, f->mlen);
            feed(r, f->sig, sl, 5, n);
            (void)ts_update_verify(big, m, C);
            must_fail(s, "long-accepted", "a complete signature, then an update of", m, 0);
        }
        /* extra data that adds up to a power of two, alone and together with the signature */
        static const unsigned pair[][2] = {{0x80000000u, 0x80000000u}, {0xffffffffu, 1}, {1, 0xffffffffu}, {0x7fffffffu, 0x80000001u}, {0x7fffffffu, 1}, {65535, 1}, {1, 65535}, {255, 1}, {1, 255}};
        for (unsigned j = 0; j < sizeof pair / sizeof *pair; j++)
            for (int with = 0; with < 2; with++) {
                unsigned a = pair[j][0] - (with && pair[j][0] > sl ? sl : 0);
                start(r, s, f, f->msg, f->mlen);
                feed(r, f->sig, sl, 5, n);
                (void)ts_update_verify(big, a, C);
                must_fail(s, "long-accepted", "a complete signature, then an update of", a, 0);
                (void)ts_update_verify(big, pair[j][1], C);
                must_fail(s, "long-accepted", "a complete signature, then two updates of", a, pair[j][1]);
                feed(r, f->sig, sl, 5, n);
                must_fail(s, "long-accepted", "a complete signature, two updates of these sizes, then the signature again", a, pair[j][1]);
            }
        break;
    }
    }
}
