/*
 * C07/C15: one build configuration against fixtures made by the reference.
 * mode: "<what>:<fixture file>"; what: results | sizes | quickresults
 */
#include "h.h"
double h_case_cpu_limit = 60;
typedef struct { uint32_t magic, set, n, siglen, mlen, det, x, y; uint8_t sk[128], opt[32]; uint8_t *msg, *sig; } rec;
static rec recs[64];
static int nrec, sizes, slow_keygen, slow_sign, one;

uint64_t h_ncases(void) {
    const char *c = strchr(h_mode, ':');
    sizes = !strncmp(h_mode, "sizes", 5);
    slow_keygen = strstr(h_mode, "+kg") && strstr(h_mode, "+kg") < c;
    slow_sign = strstr(h_mode, "+sg") && strstr(h_mode, "+sg") < c;
    one = strstr(h_mode, "+1") && strstr(h_mode, "+1") < c; /* one fixture per set */
    FILE *f = fopen(c + 1, "rb");
    if (!f) exit(3);
    rec x;
    while (fread(&x, 1, 32, f) == 32) {
        if (x.magic != 0x46583031) exit(3);
        if (fread(x.sk, 1, 128, f) != 128 || fread(x.opt, 1, 32, f) != 32) exit(3);
        x.msg = malloc(x.mlen + 1);
        x.sig = malloc(x.siglen);
        if (fread(x.msg, 1, x.mlen, f) != x.mlen || fread(x.sig, 1, x.siglen, f) != x.siglen) exit(3);
        int have = 0;
        for (int i = 0; i < h_nsets; i++) have |= h_sets[i].r == &ref_sets[x.set];
        if (have && one && nrec && recs[nrec - 1].set == x.set) continue;
        if (have) recs[nrec++] = x;
    }
    fclose(f);
    if (!nrec) exit(3);
    return (uint64_t)nrec;
}

static const hset *set_of(const rec *x) {
    for (int i = 0; i < h_nsets; i++)
        if (h_sets[i].r == &ref_sets[x->set]) return &h_sets[i];
    return 0;
}

void h_case(uint64_t id, rng *r) {
    const rec *x = &recs[id];
    const hset *s = set_of(x);
    unsigned n = x->n, sl = x->siglen;
    const char *nm = s->r->name;
    int slow = h_is_s(s->r);
    stat_add("parameter sets exercised", 1);
    CHECK(ts_size_private_key(s->ps) == 4 * n, "size", "%s [%s]: private key size %u", nm, h_tag, ts_size_private_key(s->ps));
    CHECK(ts_size_public_key(s->ps) == 2 * n, "size", "%s [%s]: public key size %u", nm, h_tag, ts_size_public_key(s->ps));
    CHECK(ts_size_signature(s->ps) == sl, "size", "%s [%s]: signature size %u instead of %u", nm, h_tag, ts_size_signature(s->ps), sl);
    stat_add("evaluations", 3);
    distinct(hash64(h_tag, strlen(h_tag), id));

    /* keys: exactly as many bytes as announced, and the specified ones */
    if (!slow || slow_keygen) {
        gbuf sk = gb_new(ts_size_private_key(s->ps)), pk = gb_new(ts_size_public_key(s->ps));
        memset(sk.p, 0xB6, sk.n);
        memset(pk.p, 0xB6, pk.n);
        h_rng_set(x->sk, 3 * n);
        CHECK(ts_gen_key(sk.p, pk.p, s->ps, h_rng_cb) == 1, "keygen", "%s [%s]: key generation failed", nm, h_tag);
        CHECK(!memcmp(sk.p, x->sk, 4 * n < sk.n ? 4 * n : sk.n), "keygen", "%s [%s]: key differs from the specification's", nm, h_tag);
        CHECK(!memcmp(pk.p, x->sk + 2 * n, 2 * n < pk.n ? 2 * n : pk.n), "keygen", "%s [%s]: public key differs", nm, h_tag);
        CHECK(gb_ok(&sk) && gb_ok(&pk), "bounds", "%s [%s]: wrote outside the announced key sizes", nm, h_tag);
        gb_free(&sk);
        gb_free(&pk);
        stat_add("evaluations", 1);
        stat_add("key pairs", 1);
    }
    /* signing: exact-size context */
    {
        unsigned want = slow && !slow_sign ? (id & 1 ? 2 * n : 3 * n) : sl;
        gbuf m = gb_new(x->mlen), key = gb_new(4 * n), cb = gb_new(sizeof(struct ts_context));
        struct ts_context *c = (void *)cb.p;
        uint8_t *out = malloc(sl + 200);
        memset(out, 0x99, sl + 200);
        rnd_fill(r, c, sizeof *c);
        memcpy(m.p, x->msg, x->mlen);
        memcpy(key.p, x->sk, 4 * n);
        h_rng_set(x->opt, n);
        ts_init_sign(c, m.p, x->mlen, s->ps, key.p, x->det ? 0 : h_rng_cb);
        if (want == sl && (id & 1)) {
            unsigned got = ts_sign(out, sl + 100, c);
            CHECK(got == sl, "count", "%s [%s]: signing made %u bytes, announced and specified %u", nm, h_tag, got, sl);
        } else {
            unsigned d = 0, g;
            while (d < want && (g = ts_sign(out + d, want - d < 777 ? want - d : 777, c))) d += g;
            CHECK(d == want, "count", "%s [%s]: signing made %u bytes of %u", nm, h_tag, d, want);
            if (want == sl) CHECK(ts_sign(out + sl, 100, c) == 0, "count", "%s [%s]: more bytes than announced", nm, h_tag);
        }
        unsigned i = 0;
        while (i < want && out[i] == x->sig[i]) i++;
        CHECK(i == want, "signature", "%s [%s]: signature differs from the specification's at byte %u (block %u)", nm, h_tag, i, i / n);
        for (i = want == sl ? sl : want; i < sl + 200; i++) if (out[i] != 0x99) { viol("bounds", "%s [%s]: wrote past the signature", nm, h_tag); break; }
        CHECK(gb_ok(&cb) && gb_ok(&m) && gb_ok(&key), "bounds", "%s [%s]: wrote outside the context or an input", nm, h_tag);
        gb_free(&m);
        gb_free(&key);
        gb_free(&cb);
        free(out);
        stat_add("evaluations", 1);
        stat_add("signature bytes compared", want);
    }
    /* verification */
    for (int t = 0; t < (sizes ? 3 : 4); t++) {
        gbuf m = gb_new(x->mlen), pk = gb_new(2 * n), cb = gb_new(sizeof(struct ts_context)), sg = gb_new(t == 1 ? sl - 1 : t == 2 ? sl + 1 + n * (unsigned)(id & 1) : sl);
        struct ts_context *c = (void *)cb.p;
        rnd_fill(r, c, sizeof *c);
        rnd_fill(r, sg.p, sg.n);
        memcpy(sg.p, x->sig, sg.n < sl ? sg.n : sl);
        memcpy(m.p, x->msg, x->mlen);
        memcpy(pk.p, x->sk + 2 * n, 2 * n);
        if (t == 3) sg.p[rnd_below(r, sl)] ^= (uint8_t)(1 + rnd_below(r, 255));
        ts_init_verify(c, m.p, x->mlen, s->ps, pk.p);
        size_t d = 0;
        while (d < sg.n) {
            size_t k = t & 1 ? rnd_in(r, 1, 600) : sg.n;
            if (k > sg.n - d) k = sg.n - d;
            (void)ts_update_verify(sg.p + d, (unsigned)k, c);
            d += k;
        }
        int v = ts_verify(c), e = t == 0;
        static const char *w[4] = {"valid signature", "signature one byte short", "signature with extra bytes", "altered signature"};
        CHECK(v == e, "verdict", "%s [%s]: %s: verdict %d", nm, h_tag, w[t], v);
        CHECK(gb_ok(&cb), "bounds", "%s [%s]: wrote outside the context", nm, h_tag);
        gb_free(&m);
        gb_free(&pk);
        gb_free(&cb);
        gb_free(&sg);
        stat_add("evaluations", 1);
        stat_add("verdicts", 1);
    }
    if (id == 0) sample("build %s: sets from %s on, context %zu bytes", h_tag, nm, sizeof(struct ts_context));
}
