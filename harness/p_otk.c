/*
 * C17: offline analysis of a history of signatures under one key.  Every hash value that a signature
 * reveals or implies is entered in a table under its address (what it is in the hypertree).  One
 * address must always have the same value; two addresses never share one; every one-time key signs one
 * value; every path ends in the published root.
 */
#include "h.h"
double h_case_cpu_limit = 180;

typedef struct { uint64_t kind, a, b, c; uint8_t v[32]; int used; } ent;
#define TAB (1u << 17)
static ent *byaddr;             /* address -> value */
static uint32_t *byval;         /* value -> entry */
static unsigned nent;
static ent *ents;
enum { K_FORS_SECRET = 1, K_FORS_NODE, K_FORS_PK, K_WOTS, K_NODE, K_SIGNED };
static const char *kn[] = {"?", "FORS secret", "FORS node", "FORS public key", "one-time signature element", "tree node", "value signed by a one-time key"};

uint64_t h_ncases(void) { return h_plan(4, strstr(h_mode, "slow") ? 1 : 0); }

static unsigned n;
static const hset *S;
static int npos;

static ent *find(uint64_t k, uint64_t a, uint64_t b, uint64_t c, int *isnew) {
    uint64_t key[4] = {k, a, b, c};
    for (uint32_t i = (uint32_t)hash64(key, sizeof key, 1) & (TAB - 1);; i = (i + 1) & (TAB - 1)) {
        ent *e = &byaddr[i];
        if (!e->used) {
            e->used = 1;
            e->kind = k; e->a = a; e->b = b; e->c = c;
            *isnew = 1;
            return e;
        }
        if (e->kind == k && e->a == a && e->b == b && e->c == c) { *isnew = 0; return e; }
    }
}
static void enter(uint64_t k, uint64_t a, uint64_t b, uint64_t c, const uint8_t *v) {
    int fresh;
    ent *e = find(k, a, b, c, &fresh);
    stat_add("evaluations", 1);
    if (!fresh) {
        stat_add(k == K_SIGNED ? "one-time keys met again" : "values met again", 1);
        CHECK(!memcmp(e->v, v, n), k == K_SIGNED ? "two-values" : "not-fixed", "%s: %s (%llx/%llx/%llx) is %s in one signature and %s in another under the same key",
              S->r->name, kn[k], (unsigned long long)a, (unsigned long long)b, (unsigned long long)c, hex(e->v, n), hex(v, n));
        return;
    }
    memcpy(e->v, v, n);
    if (nent++ > TAB * 3 / 4) { viol("table", "table full"); return; }
    if (k == K_SIGNED) return; /* equals the node it signs, on purpose */
    for (uint32_t i = (uint32_t)hash64(v, n, 2) & (TAB - 1);; i = (i + 1) & (TAB - 1)) {
        if (!byval[i]) { byval[i] = (uint32_t)(e - byaddr) + 1; break; }
        ent *o = &byaddr[byval[i] - 1];
        if (!memcmp(o->v, v, n)) {
            viol("shared-key-material", "%s: %s at %llx/%llx/%llx and %s at %llx/%llx/%llx have the same value %s", S->r->name, kn[k],
                 (unsigned long long)a, (unsigned long long)b, (unsigned long long)c, kn[o->kind], (unsigned long long)o->a,
                 (unsigned long long)o->b, (unsigned long long)o->c, hex(v, n));
            break;
        }
    }
}

static void analyse(const uint8_t *pk, const uint8_t *sig, const ref_pos *p) {
    const ref_ps *ps = S->r;
    uint8_t roots[32 * 40];
    ref_walk_at(ps, pk, sig, p, roots);
    const uint8_t *q = sig + n;
    uint64_t base = p->tree << 9 ^ p->leaf; /* unique within a set: leaf < 2^9; tree's top bits may fall out, so keep it separately */
    (void)base;
    for (unsigned i = 0; i < ps->k; i++) {
        unsigned idx = p->fors[i];
        enter(K_FORS_SECRET, p->tree, p->leaf, (uint64_t)i << 32 | idx, q);
        q += n;
        for (unsigned h = 0; h < ps->t; h++, q += n)
            enter(K_FORS_NODE, p->tree, p->leaf, (uint64_t)i << 40 | (uint64_t)h << 32 | ((idx >> h) ^ 1), q);
    }
    enter(K_FORS_PK, p->tree, p->leaf, 0, roots);
    uint64_t tree = p->tree;
    unsigned leaf = p->leaf;
    for (unsigned l = 0; l < ps->d; l++) {
        unsigned dig[80];
        const uint8_t *signedv = roots + l * n;
        enter(K_SIGNED, l, tree, leaf, signedv);
        ref_wots_digits(ps, signedv, dig);
        for (unsigned c = 0; c < 2 * n + 3; c++, q += n)
            enter(K_WOTS, (uint64_t)l << 32 | leaf, tree, (uint64_t)c << 8 | dig[c], q);
        for (unsigned h = 0; h < ps->hm; h++, q += n)
            enter(K_NODE, (uint64_t)l << 8 | h, tree, (leaf >> h) ^ 1, q);
        leaf = (unsigned)(tree & ((1u << ps->hm) - 1));
        tree >>= ps->hm;
    }
    CHECK(!memcmp(roots + ps->d * n, pk + n, n), "path", "%s: the path of a signature at tree %llx leaf %u ends in %s, not in the root %s", ps->name,
          (unsigned long long)p->tree, p->leaf, hex(roots + ps->d * n, n), hex(pk + n, n));
    npos++;
}

void h_case(uint64_t id, rng *r) {
    int k;
    S = h_plan_set(id, &k);
    const ref_ps *ps = S->r;
    n = ps->n;
    unsigned sl = ref_siglen(ps), tb = ps->h - ps->hm;
    if (!byaddr) {
        byaddr = calloc(TAB, sizeof *byaddr);
        byval = calloc(TAB, sizeof *byval);
    }
    memset(byaddr, 0, TAB * sizeof *byaddr);
    memset(byval, 0, TAB * sizeof *byval);
    (void)ents;
    nent = 0;
    npos = 0;
    uint8_t seed[96], sk[128], m[60], opt[32], dg[64], dg0[64];
    static uint8_t sig[SIGMAX];
    rnd_fill(r, seed, 96); /* random: equal seeds would not be unrelated */
    h_rng_set(seed, 3 * n);
    if (!ts_gen_key(sk, 0, S->ps, h_rng_cb)) { viol("keygen", "key generation failed"); return; }
    uint64_t tmask = tb == 64 ? ~0ull : (1ull << tb) - 1, tree = rnd(r) & tmask;
    unsigned lmask = (1u << ps->hm) - 1, leaf = (unsigned)rnd(r) & lmask;
    int rounds = h_is_s(ps) ? 3 : h_thorough ? 24 : 9;
    for (int i = 0; i < rounds; i++) {
        size_t ml = rnd_below(r, 60);
        rnd_fill(r, m, ml);
        rnd_fill(r, opt, 32);
        uint64_t t = tree;
        unsigned lf = leaf;
        switch (i) {
        case 0: break;                                     /* the base position */
        case 1: break;                                     /* the same position for another message: another FORS subset */
        case 2: lf ^= 1u << rnd_below(r, ps->hm); break;   /* the same tree */
        case 3: t ^= 1ull << (tb - 1 - rnd_below(r, 8)); break; /* differs only far up */
        case 4: t ^= 1ull << rnd_below(r, tb); break;
        case 5: t ^= 1ull << rnd_below(r, ps->hm); break;  /* neighbour in the tree above */
        case 6: if (tb > 32) t ^= 1ull << rnd_in(r, 32, tb - 1); break;
        case 7: t = rnd(r) & 1 ? tmask : 0; lf = rnd(r) & 1 ? lmask : 0; break;
        case 8: t = (t & ~0xffffull) | (rnd(r) & 0xffff); break;
        default: if (rnd(r) & 1) t ^= rnd(r) & rnd(r) & rnd(r) & tmask; else lf = (unsigned)rnd(r) & lmask; break;
        }
        h_digest(r, ps, t, lf, dg);
        if (i == 1 && (k & 1)) memcpy(dg, dg0, 64); /* even the same FORS subset, another R */
        if (i == 0) memcpy(dg0, dg, 64);
        if (i > 1 && (k + i) & 1) memcpy(dg, dg0, (ps->k * ps->t + 7) / 8); /* the same FORS leaves at another position */
        const struct ts_parameter_set *cps = h_chosen(S, dg);
        ref_pos pos;
        struct ts_context c;
        rnd_fill(r, &c, sizeof c);
        h_rng_set(opt, n);
        ts_init_sign(&c, m, ml, cps ? cps : S->ps, sk, h_rng_cb);
        unsigned got = 0;
        int style = (int)rnd_in(r, 1, H_CHUNK_STYLES - 1);
        while (got < sl) {
            unsigned w = h_chunk(r, style, n);
            if (w > sl - got) w = sl - got;
            unsigned g = ts_sign(sig + got, w, &c);
            got += g;
            if (g != w) break;
        }
        if (got != sl) { viol("short", "%s: signature of %u bytes", ps->name, got); return; }
        if (cps) ref_parse_digest(ps, dg, &pos);
        else ref_position(ps, sk + 2 * n, sig, m, ml, &pos);
        analyse(sk + 2 * n, sig, &pos);
        stat_add(cps ? "signatures at chosen positions" : "signatures at natural positions", 1);
    }
    distinct(hash64(seed, 96, id));
    if (k == 0) sample("%s: %d signatures under one key around tree %llx leaf %u: %u distinct values at their addresses", ps->name, npos, (unsigned long long)tree, leaf, nent);
}
