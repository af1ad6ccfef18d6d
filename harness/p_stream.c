/*
 * C03: whatever sizes the caller asks for, the chunks concatenate to the one signature, every call
 * makes exactly min(asked, left) bytes, touches nothing beyond them, and after the end makes none.
 */
#define _GNU_SOURCE
#include <sys/mman.h>
#include "h.h"
double h_case_cpu_limit = 150;

uint64_t h_ncases(void) {
    fx_build(2, 1);
    return h_plan(14, 2);
}

void h_case(uint64_t id, rng *r) {
    int k;
    const hset *s = h_plan_set(id, &k);
    const fx *f = fx_get(s, (int)rnd(r) & 0xff);
    unsigned n = f->n, sl = f->siglen, done = 0, calls = 0, zero = 0;
    int style = h_is_s(s->r) ? (int)((id + rnd_below(r, 2)) % 11) : k % 11;
    struct ts_context *c = malloc(sizeof *c);
    static uint8_t *big;
    uint8_t *buf = malloc(70000 + 64);
    rnd_fill(r, c, sizeof *c);
    h_rng_set(f->opt, n);
    ts_init_sign(c, f->mlen ? f->msg : 0, f->mlen, s->ps, f->sk, f->det ? 0 : h_rng_cb);
    unsigned cut = (unsigned)rnd_below(r, sl);
    uint64_t trace = (uint64_t)style;
    for (;;) {
        unsigned want;
        uint8_t *dst = buf + rnd_below(r, 16);
        if (style < 8) want = h_chunk(r, style, n);
        else if (style == 8) want = calls == 0 ? cut : sl - cut + (unsigned)rnd_below(r, 3); /* two pieces */
        else if (style == 9) want = (unsigned)rnd_in(r, 250, 260) + 0 * n;
        else { /* style 10: ask for far more than there is, in a region which is that large */
            static const unsigned huge[] = {0xffffffffu, 0x80000000u, 0x7fffffffu, 65536, 65535, 0x80000001u};
            want = calls == 0 ? (unsigned)rnd_below(r, 2 * n) : huge[rnd_below(r, 6)];
            if (!big) {
                big = mmap(0, (1ull << 32) + 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
                if (big == MAP_FAILED) abort();
            }
            dst = big;
        }
        unsigned left = sl - done, expect = want < left ? want : left, win = want < 65600 ? want : 65600;
        memset(dst, 0xA7, win + 16);
        unsigned got = ts_sign(!want && calls % 3 == 0 ? 0 : dst, want, c); /* no bytes need not go anywhere */
        calls++;
        stat_add("evaluations", 1);
        if (!want) zero++;
        if (got != expect) {
            viol("stream-count", "%s: call %u asked for %u with %u left and was told %u", s->r->name, calls, want, left, got);
            break;
        }
        if (memcmp(dst, f->sig + done, got)) {
            viol("stream-bytes", "%s: bytes %u..%u (call %u, asked for %u) differ from the signature", s->r->name, done, done + got, calls, want);
            break;
        }
        unsigned i = got;
        while (i < win + 16 && dst[i] == 0xA7) i++;
        if (i != win + 16) {
            viol("stream-tail", "%s: call %u of %u bytes which made %u changed byte %u of the buffer", s->r->name, calls, want, got, i);
            break;
        }
        done += got;
        trace = hash64(&want, sizeof want, trace);
        if (done == sl && got < want) break;
        if (done == sl && rnd_below(r, 3) == 0) break;
    }
    /* the end is the end */
    if (done == sl) {
        static const unsigned after[] = {1, 0, 16, 1, 31, 32, 33, 1000, 1, 65536, 2, 65535};
        for (unsigned i = 0; i < 12 + (style == 0 ? 600 : 0); i++) {
            unsigned want = i < 12 ? after[i] : 1 + i % 3;
            memset(buf, 0xA7, 65536 + 16);
            unsigned got = ts_sign(buf, want, c);
            stat_add("calls after the end", 1);
            if (got) { viol("stream-after-end", "%s: %u bytes were made after the end of the signature", s->r->name, got); break; }
            unsigned j = 0;
            while (j < 65536 + 16 && buf[j] == 0xA7) j++;
            if (j != 65536 + 16) { viol("stream-after-end", "%s: a call after the end wrote to the buffer", s->r->name); break; }
            if (i >= 12) i += 2;
        }
        /* and stays the end, past what any counter of 8 or 16 bits could hold */
        if (style < 2 || style == 9)
            for (unsigned i = 0; i < 70000; i++) {
                unsigned want = i % 5;
                memset(buf, 0xA7, 8);
                unsigned got = ts_sign(buf, want, c), j = 0;
                while (j < 8 && buf[j] == 0xA7) j++;
                if (got || j != 8) { viol("stream-after-end", "%s: %u bytes were made by call %u after the end of the signature", s->r->name, got, i); break; }
            }
    }
    stat_add("signatures streamed", 1);
    stat_add("calls asking for 0 bytes", zero);
    distinct(hash64(&trace, 8, (uint64_t)(s->r - ref_sets)));
    if (k < 2) sample("%s: %u calls, chunk style %d, %u calls for nothing, signature of %u bytes as specified", s->r->name, calls, style, zero, sl);
    free(buf);
    free(c);
}
