#define OPENSSL_SUPPRESS_DEPRECATED
#include <stdlib.h>
#include <string.h>
#include <openssl/evp.h>
#include <openssl/sha.h>
#include <openssl/hmac.h>
#include "ref.h"

const ref_ps ref_sets[12] = {
    /* name         n   k   t   h   d  hm sha2 */
    {"sha2_128s",  16, 14, 12, 63,  7, 9, 1},
    {"sha2_128f",  16, 33,  6, 66, 22, 3, 1},
    {"sha2_192s",  24, 17, 14, 63,  7, 9, 1},
    {"sha2_192f",  24, 33,  8, 66, 22, 3, 1},
    {"sha2_256s",  32, 22, 14, 64,  8, 8, 1},
    {"sha2_256f",  32, 35,  9, 68, 17, 4, 1},
    {"shake_128s", 16, 14, 12, 63,  7, 9, 0},
    {"shake_128f", 16, 33,  6, 66, 22, 3, 0},
    {"shake_192s", 24, 17, 14, 63,  7, 9, 0},
    {"shake_192f", 24, 33,  8, 66, 22, 3, 0},
    {"shake_256s", 32, 22, 14, 64,  8, 8, 0},
    {"shake_256f", 32, 35,  9, 68, 17, 4, 0},
};

const ref_ps *ref_lookup(const char *name) {
    for (int i = 0; i < 12; i++)
        if (!strcmp(ref_sets[i].name, name)) return &ref_sets[i];
    return 0;
}

unsigned ref_siglen(const ref_ps *ps) {
    return ps->n * (1 + ps->k * (ps->t + 1) + ps->d * (2 * ps->n + 3) + ps->h);
}

unsigned ref_digest_len(const ref_ps *ps) {
    return (ps->k * ps->t + 7) / 8 + (ps->h - ps->hm + 7) / 8 + (ps->hm + 7) / 8;
}

/* ------------------------------------------------------------------ Keccak, 8 lanes at a time */
#define L 8
typedef uint64_t v8 __attribute__((vector_size(8 * L)));

static const uint64_t RC[24] = {
    0x0000000000000001ULL, 0x0000000000008082ULL, 0x800000000000808aULL, 0x8000000080008000ULL,
    0x000000000000808bULL, 0x0000000080000001ULL, 0x8000000080008081ULL, 0x8000000000008009ULL,
    0x000000000000008aULL, 0x0000000000000088ULL, 0x0000000080008009ULL, 0x000000008000000aULL,
    0x000000008000808bULL, 0x800000000000008bULL, 0x8000000000008089ULL, 0x8000000000008003ULL,
    0x8000000000008002ULL, 0x8000000000000080ULL, 0x000000000000800aULL, 0x800000008000000aULL,
    0x8000000080008081ULL, 0x8000000000008080ULL, 0x0000000080000001ULL, 0x8000000080008008ULL};

#define ROTL(x, r) (((x) << (r)) | ((x) >> ((64 - (r)) & 63)))

/* a[x + 5y]; rho offsets computed from the FIPS 202 recurrence */
static int RHO[25];
static void __attribute__((constructor)) init_rho(void) {
    int x = 1, y = 0;
    RHO[0] = 0;
    for (int t = 0; t < 24; t++) {
        RHO[x + 5 * y] = ((t + 1) * (t + 2) / 2) % 64;
        int ny = (2 * x + 3 * y) % 5;
        x = y;
        y = ny;
    }
}

#define KECCAK_BODY(T)                                                          \
    for (int r = 0; r < 24; r++) {                                              \
        T c[5], d[5], b[25];                                                    \
        for (int x = 0; x < 5; x++)                                             \
            c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];         \
        for (int x = 0; x < 5; x++)                                             \
            d[x] = c[(x + 4) % 5] ^ ROTL(c[(x + 1) % 5], 1);                    \
        for (int y = 0; y < 5; y++)                                             \
            for (int x = 0; x < 5; x++) {                                       \
                T v = a[x + 5 * y] ^ d[x];                                      \
                int ro = RHO[x + 5 * y];                                        \
                b[y + 5 * ((2 * x + 3 * y) % 5)] =                              \
                    (v << ro) | ((v >> 1) >> (63 - ro));                        \
            }                                                                   \
        for (int y = 0; y < 5; y++)                                             \
            for (int x = 0; x < 5; x++)                                         \
                a[x + 5 * y] = b[x + 5 * y] ^                                   \
                               (~b[(x + 1) % 5 + 5 * y] & b[(x + 2) % 5 + 5 * y]); \
        a[0] ^= RC[r];                                                          \
    }

static void keccak1(uint64_t a[25]) { KECCAK_BODY(uint64_t) }
static void keccak8(v8 a[25]) { KECCAK_BODY(v8) }

/* prefix || message, without copying the message; long ones go through OpenSSL */
static void shake256_2(const uint8_t *pre, size_t plen, const uint8_t *m, size_t len, uint8_t *out, size_t outlen) {
    if (len > 65536) {
        EVP_MD_CTX *c = EVP_MD_CTX_new();
        if (!c || !EVP_DigestInit_ex(c, EVP_shake256(), 0) || !EVP_DigestUpdate(c, pre, plen) ||
            !EVP_DigestUpdate(c, m, len) || !EVP_DigestFinalXOF(c, out, outlen))
            abort();
        EVP_MD_CTX_free(c);
        return;
    }
    uint8_t *b = malloc(plen + len + 1);
    memcpy(b, pre, plen);
    if (len) memcpy(b + plen, m, len);
    ref_shake256(b, plen + len, out, outlen);
    free(b);
}
void ref_shake256(const uint8_t *m, size_t len, uint8_t *out, size_t outlen) {
    uint64_t a[25] = {0};
    uint8_t blk[136];
    for (;;) {
        size_t take = len >= 136 ? 136 : len;
        memset(blk, 0, sizeof blk);
        if (take) memcpy(blk, m, take);
        int last = take < 136;
        if (last) {
            blk[take] ^= 0x1f;
            blk[135] ^= 0x80;
        }
        for (int i = 0; i < 17; i++) {
            uint64_t w;
            memcpy(&w, blk + 8 * i, 8);
            a[i] ^= w;
        }
        keccak1(a);
        if (last) break;
        m += take;
        len -= take;
    }
    while (outlen) {
        size_t take = outlen >= 136 ? 136 : outlen;
        memcpy(out, a, take);
        out += take;
        outlen -= take;
        if (outlen) keccak1(a);
    }
}

void ref_sha256(const uint8_t *m, size_t len, uint8_t out[32]) {
    SHA256_CTX c;
    SHA256_Init(&c);
    if (len) SHA256_Update(&c, m, len);
    SHA256_Final(out, &c);
}
void ref_sha512(const uint8_t *m, size_t len, uint8_t out[64]) {
    SHA512_CTX c;
    SHA512_Init(&c);
    if (len) SHA512_Update(&c, m, len);
    SHA512_Final(out, &c);
}

/* ------------------------------------------------------------------ tweakable hashes */
typedef struct {
    const ref_ps *ps;
    const uint8_t *pkseed, *skseed;
    SHA256_CTX s256; /* after PK.seed || 0* (64 bytes) */
    SHA512_CTX s512; /* after PK.seed || 0* (128 bytes) */
} rctx;

static void rctx_init(rctx *c, const ref_ps *ps, const uint8_t *pkseed, const uint8_t *skseed) {
    c->ps = ps;
    c->pkseed = pkseed;
    c->skseed = skseed;
    if (ps->sha2) {
        uint8_t z[128] = {0};
        memcpy(z, pkseed, ps->n);
        SHA256_Init(&c->s256);
        SHA256_Update(&c->s256, z, 64);
        SHA512_Init(&c->s512);
        SHA512_Update(&c->s512, z, 128);
    }
}

typedef struct { uint8_t b[32]; } adrs;
enum { WOTS_HASH, WOTS_PK, TREE, FORS_TREE, FORS_ROOTS, WOTS_PRF, FORS_PRF };

static void be(uint8_t *p, uint64_t v, int n) {
    for (int i = n - 1; i >= 0; i--) { p[i] = (uint8_t)v; v >>= 8; }
}
static adrs A(unsigned layer, uint64_t tree, unsigned type, unsigned keypair, unsigned w6, unsigned w7) {
    adrs a;
    be(a.b, layer, 4);
    be(a.b + 4, 0, 4);
    be(a.b + 8, tree, 8);
    be(a.b + 16, type, 4);
    be(a.b + 20, keypair, 4);
    be(a.b + 24, w6, 4);
    be(a.b + 28, w7, 4);
    return a;
}
static void compress_adrs(const adrs *a, uint8_t o[22]) {
    o[0] = a->b[3];
    memcpy(o + 1, a->b + 8, 8);
    o[9] = a->b[19];
    memcpy(o + 10, a->b + 20, 12);
}

/* out[i] = T(PK.seed, a[i], in[i]) for `cnt` independent inputs of `blocks` n-byte blocks;
   in is contiguous with stride blocks*n, out with stride n; out may alias in when blocks == 1 */
static void thash(const rctx *c, unsigned cnt, const adrs *a, const uint8_t *in, unsigned blocks,
                  uint8_t *out) {
    unsigned n = c->ps->n, len = blocks * n;
    if (c->ps->sha2) {
        for (unsigned i = 0; i < cnt; i++) {
            uint8_t ac[22], o[64];
            compress_adrs(&a[i], ac);
            if (n == 16 || blocks == 1) {
                SHA256_CTX s = c->s256;
                SHA256_Update(&s, ac, 22);
                SHA256_Update(&s, in + (size_t)i * len, len);
                SHA256_Final(o, &s);
            } else {
                SHA512_CTX s = c->s512;
                SHA512_Update(&s, ac, 22);
                SHA512_Update(&s, in + (size_t)i * len, len);
                SHA512_Final(o, &s);
            }
            memcpy(out + (size_t)i * n, o, n);
        }
        return;
    }
    unsigned total = n + 32 + len;
    if (total > 135) {
        uint8_t buf[32 + 32 + 67 * 32];
        for (unsigned i = 0; i < cnt; i++) {
            memcpy(buf, c->pkseed, n);
            memcpy(buf + n, a[i].b, 32);
            memcpy(buf + n + 32, in + (size_t)i * len, len);
            ref_shake256(buf, total, out + (size_t)i * n, n);
        }
        return;
    }
    for (unsigned i = 0; i < cnt; i += L) {
        unsigned m = cnt - i < L ? cnt - i : L;
        v8 st[25];
        memset(st, 0, sizeof st);
        for (unsigned j = 0; j < m; j++) {
            uint8_t blk[136] = {0};
            memcpy(blk, c->pkseed, n);
            memcpy(blk + n, a[i + j].b, 32);
            memcpy(blk + n + 32, in + (size_t)(i + j) * len, len);
            blk[total] ^= 0x1f;
            blk[135] ^= 0x80;
            for (int w = 0; w < 17; w++) {
                uint64_t x;
                memcpy(&x, blk + 8 * w, 8);
                st[w][j] = x;
            }
        }
        keccak8(st);
        for (unsigned j = 0; j < m; j++) {
            uint64_t o[4] = {st[0][j], st[1][j], st[2][j], st[3][j]};
            memcpy(out + (size_t)(i + j) * n, o, n);
        }
    }
}

/* ------------------------------------------------------------------ message functions */
void ref_R(const ref_ps *ps, const uint8_t *sk, const uint8_t *optrand, const uint8_t *msg,
           size_t len, uint8_t *R) {
    unsigned n = ps->n;
    const uint8_t *prf = sk + n;
    if (!optrand) optrand = sk + 2 * n; /* PK.seed */
    if (!ps->sha2) {
        uint8_t b[64];
        memcpy(b, prf, n);
        memcpy(b + n, optrand, n);
        shake256_2(b, 2 * n, msg, len, R, n);
        return;
    }
    EVP_MAC *mac = EVP_MAC_fetch(0, "HMAC", 0);
    EVP_MAC_CTX *c = EVP_MAC_CTX_new(mac);
    OSSL_PARAM p[2] = {OSSL_PARAM_construct_utf8_string("digest", n == 16 ? "SHA256" : "SHA512", 0),
                       OSSL_PARAM_construct_end()};
    uint8_t o[64];
    size_t ol;
    if (!EVP_MAC_init(c, prf, n, p) || !EVP_MAC_update(c, optrand, n) ||
        (len && !EVP_MAC_update(c, msg, len)) || !EVP_MAC_final(c, o, &ol, sizeof o))
        abort();
    EVP_MAC_CTX_free(c);
    EVP_MAC_free(mac);
    memcpy(R, o, n);
}

void ref_parse_digest(const ref_ps *ps, const uint8_t *dg, ref_pos *pos) {
    unsigned bit = 0;
    for (unsigned i = 0; i < ps->k; i++) {
        unsigned v = 0;
        for (unsigned j = 0; j < ps->t; j++, bit++) v = v << 1 | ((dg[bit / 8] >> (7 - bit % 8)) & 1);
        pos->fors[i] = v;
    }
    const uint8_t *p = dg + (ps->k * ps->t + 7) / 8;
    unsigned tb = ps->h - ps->hm, lb = ps->hm;
    uint64_t v = 0;
    for (unsigned i = 0; i < (tb + 7) / 8; i++) v = v << 8 | *p++;
    pos->tree = tb == 64 ? v : v & (((uint64_t)1 << tb) - 1);
    v = 0;
    for (unsigned i = 0; i < (lb + 7) / 8; i++) v = v << 8 | *p++;
    pos->leaf = (unsigned)(v & (((uint64_t)1 << lb) - 1));
}

void ref_position(const ref_ps *ps, const uint8_t *pk, const uint8_t *R, const uint8_t *msg,
                  size_t len, ref_pos *pos) {
    unsigned n = ps->n, m = ref_digest_len(ps);
    uint8_t dg[64 + 64];
    if (!ps->sha2) {
        uint8_t b[96];
        memcpy(b, R, n);
        memcpy(b + n, pk, 2 * n);
        shake256_2(b, 3 * n, msg, len, dg, m);
    } else {
        unsigned hl = n == 16 ? 32 : 64;
        uint8_t b[64 + 64 + 4], o[64];
        memcpy(b, R, n);
        memcpy(b + n, pk, n);
        if (hl == 32) {
            SHA256_CTX s;
            SHA256_Init(&s);
            SHA256_Update(&s, R, n);
            SHA256_Update(&s, pk, 2 * n);
            if (len) SHA256_Update(&s, msg, len);
            SHA256_Final(b + 2 * n, &s);
        } else {
            SHA512_CTX s;
            SHA512_Init(&s);
            SHA512_Update(&s, R, n);
            SHA512_Update(&s, pk, 2 * n);
            if (len) SHA512_Update(&s, msg, len);
            SHA512_Final(b + 2 * n, &s);
        }
        for (unsigned off = 0, i = 0; off < m; off += hl, i++) {
            be(b + 2 * n + hl, i, 4);
            if (hl == 32) ref_sha256(b, 2 * n + hl + 4, o);
            else ref_sha512(b, 2 * n + hl + 4, o);
            memcpy(dg + off, o, hl);
        }
    }
    ref_parse_digest(ps, dg, pos);
}

/* ------------------------------------------------------------------ trees */
/* lv: all levels of a tree of height ht, leaves first; lv must hold 2^(ht+1) nodes.
   Node i of level z gets address type/keypair with height z and index (base >> z) + i */
static void build_tree(const rctx *c, uint8_t *lv, unsigned ht, unsigned layer, uint64_t tree,
                       unsigned type, unsigned keypair, unsigned base) {
    unsigned n = c->ps->n;
    adrs *a = malloc(sizeof *a << ht);
    uint8_t *cur = lv;
    for (unsigned z = 1; z <= ht; z++) {
        unsigned cnt = 1u << (ht - z);
        for (unsigned i = 0; i < cnt; i++) a[i] = A(layer, tree, type, keypair, z, (base >> z) + i);
        uint8_t *next = cur + ((size_t)n << (ht - z + 1));
        thash(c, cnt, a, cur, 2, next);
        cur = next;
    }
    free(a);
}
static const uint8_t *tree_level(const uint8_t *lv, unsigned n, unsigned ht, unsigned z) {
    for (unsigned i = 0; i < z; i++) lv += (size_t)n << (ht - i);
    return lv;
}
static uint8_t *copy_auth(const uint8_t *lv, unsigned n, unsigned ht, unsigned leaf, uint8_t *out) {
    for (unsigned z = 0; z < ht; z++) {
        memcpy(out, tree_level(lv, n, ht, z) + (size_t)((leaf >> z) ^ 1) * n, n);
        out += n;
    }
    return out;
}

void ref_wots_digits(const ref_ps *ps, const uint8_t *m, unsigned *dig) {
    unsigned len1 = 2 * ps->n, cs = 0;
    for (unsigned i = 0; i < len1; i++) {
        dig[i] = i & 1 ? m[i / 2] & 15 : m[i / 2] >> 4;
        cs += 15 - dig[i];
    }
    /* csum << (8 - (len2*lg(w) mod 8)) = << 4, as 2 bytes, base 16, 3 digits */
    cs <<= 4;
    dig[len1] = (cs >> 12) & 15;
    dig[len1 + 1] = (cs >> 8) & 15;
    dig[len1 + 2] = (cs >> 4) & 15;
}

/* chain values: start[i] moved from position from[i] to to[i] */
static void chains(const rctx *c, unsigned layer, uint64_t tree, unsigned kp, uint8_t *v,
                   const unsigned *from, const unsigned *to) {
    unsigned n = c->ps->n, len = 2 * n + 3;
    adrs a[67];
    unsigned idx[67];
    uint8_t tmp[67 * 32];
    for (unsigned s = 0; s < 15; s++) {
        unsigned m = 0;
        for (unsigned i = 0; i < len; i++)
            if (from[i] <= s && s < to[i]) {
                idx[m] = i;
                a[m] = A(layer, tree, WOTS_HASH, kp, i, s);
                memcpy(tmp + m * n, v + i * n, n);
                m++;
            }
        if (!m) continue;
        thash(c, m, a, tmp, 1, tmp);
        for (unsigned j = 0; j < m; j++) memcpy(v + idx[j] * n, tmp + j * n, n);
    }
}
static void wots_starts(const rctx *c, unsigned layer, uint64_t tree, unsigned kp, uint8_t *v) {
    unsigned n = c->ps->n, len = 2 * n + 3;
    adrs a[67];
    for (unsigned i = 0; i < len; i++) {
        a[i] = A(layer, tree, WOTS_PRF, kp, i, 0);
        memcpy(v + i * n, c->skseed, n);
    }
    thash(c, len, a, v, 1, v);
}
static void wots_pk(const rctx *c, unsigned layer, uint64_t tree, unsigned kp, uint8_t *out) {
    static const unsigned zero[67];
    unsigned top[67];
    for (int i = 0; i < 67; i++) top[i] = 15;
    uint8_t v[67 * 32];
    wots_starts(c, layer, tree, kp, v);
    chains(c, layer, tree, kp, v, zero, top);
    adrs a = A(layer, tree, WOTS_PK, kp, 0, 0);
    thash(c, 1, &a, v, 2 * c->ps->n + 3, out);
}
static void merkle_tree(const rctx *c, unsigned layer, uint64_t tree, uint8_t *lv) {
    for (unsigned i = 0; i < 1u << c->ps->hm; i++) wots_pk(c, layer, tree, i, lv + (size_t)i * c->ps->n);
    build_tree(c, lv, c->ps->hm, layer, tree, TREE, 0, 0);
}

void ref_keygen(const ref_ps *ps, const uint8_t *seed, uint8_t *sk) {
    unsigned n = ps->n;
    memcpy(sk, seed, 3 * n);
    rctx c;
    rctx_init(&c, ps, sk + 2 * n, sk);
    uint8_t *lv = malloc((size_t)n << (ps->hm + 1));
    merkle_tree(&c, ps->d - 1, 0, lv);
    memcpy(sk + 3 * n, tree_level(lv, n, ps->hm, ps->hm), n);
    free(lv);
}

void ref_sign_prefix(const ref_ps *ps, const uint8_t *sk, const uint8_t *optrand,
                     const uint8_t *msg, size_t len, uint8_t *sig, size_t want) {
    ref_pos pos;
    ref_R(ps, sk, optrand, msg, len, sig);
    ref_position(ps, sk + 2 * ps->n, sig, msg, len, &pos);
    ref_sign_at(ps, sk, &pos, sig, want);
}
const uint8_t *ref_forced_fors_pk;
/* everything after R, at a given position */
void ref_sign_at(const ref_ps *ps, const uint8_t *sk, const ref_pos *at, uint8_t *sig, size_t want) {
    unsigned n = ps->n, T = 1u << ps->t;
    rctx c;
    ref_pos pos = *at;
    rctx_init(&c, ps, sk + 2 * n, sk);
    uint8_t *o = sig + n;
    uint8_t *lv = malloc((size_t)n << ((ps->t > ps->hm ? ps->t : ps->hm) + 1));
    adrs *a = malloc(sizeof *a * T);
    uint8_t roots[64 * 32], root[32];
    for (unsigned i = 0; i < ps->k && (size_t)(o - sig) < want; i++) {
        unsigned base = i * T;
        for (unsigned j = 0; j < T; j++) {
            a[j] = A(0, pos.tree, FORS_PRF, pos.leaf, 0, base + j);
            memcpy(lv + (size_t)j * n, c.skseed, n);
        }
        thash(&c, T, a, lv, 1, lv);
        memcpy(o, lv + (size_t)pos.fors[i] * n, n);
        o += n;
        for (unsigned j = 0; j < T; j++) a[j] = A(0, pos.tree, FORS_TREE, pos.leaf, 0, base + j);
        thash(&c, T, a, lv, 1, lv);
        build_tree(&c, lv, ps->t, 0, pos.tree, FORS_TREE, pos.leaf, base);
        o = copy_auth(lv, n, ps->t, pos.fors[i], o);
        memcpy(roots + i * n, tree_level(lv, n, ps->t, ps->t), n);
    }
    if ((size_t)(o - sig) < want) {
        adrs fa = A(0, pos.tree, FORS_ROOTS, pos.leaf, 0, 0);
        thash(&c, 1, &fa, roots, ps->k, root);
        if (ref_forced_fors_pk) memcpy(root, ref_forced_fors_pk, n);
    }
    uint64_t tree = pos.tree;
    unsigned leaf = pos.leaf;
    for (unsigned l = 0; l < ps->d && (size_t)(o - sig) < want; l++) {
        static const unsigned zero[67];
        unsigned dig[67];
        ref_wots_digits(ps, root, dig);
        wots_starts(&c, l, tree, leaf, o);
        chains(&c, l, tree, leaf, o, zero, dig);
        o += (2 * n + 3) * n;
        merkle_tree(&c, l, tree, lv);
        o = copy_auth(lv, n, ps->hm, leaf, o);
        memcpy(root, tree_level(lv, n, ps->hm, ps->hm), n);
        leaf = (unsigned)(tree & ((1u << ps->hm) - 1));
        tree >>= ps->hm;
    }
    free(a);
    free(lv);
}
void ref_sign(const ref_ps *ps, const uint8_t *sk, const uint8_t *optrand, const uint8_t *msg,
              size_t len, uint8_t *sig) {
    ref_sign_prefix(ps, sk, optrand, msg, len, sig, ref_siglen(ps));
}

static void climb(const rctx *c, unsigned layer, uint64_t tree, unsigned type, unsigned kp,
                  unsigned base, unsigned leaf, unsigned ht, const uint8_t *auth, uint8_t *node) {
    unsigned n = c->ps->n;
    for (unsigned z = 0; z < ht; z++) {
        uint8_t b[64];
        int right = (leaf >> z) & 1;
        memcpy(b + (right ? n : 0), node, n);
        memcpy(b + (right ? 0 : n), auth + z * n, n);
        adrs a = A(layer, tree, type, kp, z + 1, (base + leaf) >> (z + 1));
        thash(c, 1, &a, b, 2, node);
    }
}

void ref_walk(const ref_ps *ps, const uint8_t *pk, const uint8_t *msg, size_t len,
              const uint8_t *sig, ref_pos *pos, uint8_t *out) {
    ref_position(ps, pk, sig, msg, len, pos);
    ref_walk_at(ps, pk, sig, pos, out);
}
void ref_walk_at(const ref_ps *ps, const uint8_t *pk, const uint8_t *sig, const ref_pos *pos, uint8_t *out) {
    unsigned n = ps->n;
    rctx c;
    rctx_init(&c, ps, pk, 0);
    const uint8_t *p = sig + n;
    uint8_t roots[64 * 32], node[32];
    for (unsigned i = 0; i < ps->k; i++) {
        adrs a = A(0, pos->tree, FORS_TREE, pos->leaf, 0, (i << ps->t) + pos->fors[i]);
        thash(&c, 1, &a, p, 1, node);
        climb(&c, 0, pos->tree, FORS_TREE, pos->leaf, i << ps->t, pos->fors[i], ps->t, p + n, node);
        memcpy(roots + i * n, node, n);
        p += n * (ps->t + 1);
    }
    adrs fa = A(0, pos->tree, FORS_ROOTS, pos->leaf, 0, 0);
    thash(&c, 1, &fa, roots, ps->k, node);
    if (ref_forced_fors_pk) memcpy(node, ref_forced_fors_pk, n);
    memcpy(out, node, n);
    uint64_t tree = pos->tree;
    unsigned leaf = pos->leaf;
    for (unsigned l = 0; l < ps->d; l++) {
        unsigned dig[67], top[67];
        uint8_t v[67 * 32];
        for (int i = 0; i < 67; i++) top[i] = 15;
        ref_wots_digits(ps, node, dig);
        memcpy(v, p, (2 * n + 3) * n);
        chains(&c, l, tree, leaf, v, dig, top);
        adrs a = A(l, tree, WOTS_PK, leaf, 0, 0);
        thash(&c, 1, &a, v, 2 * n + 3, node);
        p += (2 * n + 3) * n;
        climb(&c, l, tree, TREE, 0, 0, leaf, ps->hm, p, node);
        p += ps->hm * n;
        memcpy(out + (l + 1) * n, node, n);
        leaf = (unsigned)(tree & ((1u << ps->hm) - 1));
        tree >>= ps->hm;
    }
}

int ref_verify(const ref_ps *ps, const uint8_t *pk, const uint8_t *msg, size_t len,
               const uint8_t *sig, size_t siglen) {
    if (siglen != ref_siglen(ps)) return 0;
    ref_pos pos;
    uint8_t out[32 * 32];
    ref_walk(ps, pk, msg, len, sig, &pos, out);
    return !memcmp(out + ps->d * ps->n, pk + ps->n, ps->n);
}
