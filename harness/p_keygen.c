/* C01: a key pair is the specification's function of the 3n random bytes the caller supplied. */
#include "h.h"

uint64_t h_ncases(void) { return h_plan(60, 5); }
double h_case_cpu_limit = 60;

void h_case(uint64_t id, rng *r) {
    int k;
    const hset *s = h_plan_set(id, &k);
    unsigned n = s->r->n;
    uint8_t seed[96], want[128];
    h_seed_material(r, s->r, seed);
    ref_keygen(s->r, seed, want);
    int with_pk = k == 0 ? 1 : k == 1 ? 0 : (int)(rnd(r) & 1);
    gbuf sk = gb_newa(4 * n, (unsigned)rnd_below(r, 16)), pk = gb_newa(2 * n, (unsigned)rnd_below(r, 16));
    int fill = (int)rnd_below(r, 3);
    memset(sk.p, fill == 0 ? 0 : fill == 1 ? 0xff : 0x5a, 4 * n);
    memset(pk.p, 0x3c, 2 * n);
    h_rng_set(seed, 3 * n);
    int ok = ts_gen_key(sk.p, with_pk ? pk.p : 0, s->ps, h_rng_cb);
    stat_add("evaluations", 1);
    stat_add("key pairs compared with the specification", 1);
    CHECK(ok == 1, "keygen-ret", "%s: key generation returned %d with a working random function", s->r->name, ok);
    CHECK(!h_rs.overrun && h_rs.used == 3 * n, "keygen-entropy", "%s: took %zu random bytes%s instead of %u", s->r->name,
          h_rs.used, h_rs.overrun ? " and more" : "", 3 * n);
    CHECK(!memcmp(sk.p, want, 4 * n), "keygen-sk", "%s: seed %s gave private key %s instead of %s", s->r->name,
          hex(seed, 3 * n), hex(sk.p, 4 * n), hex(want, 4 * n));
    if (with_pk)
        CHECK(!memcmp(pk.p, want + 2 * n, 2 * n), "keygen-pk", "%s: seed %s gave public key %s instead of %s", s->r->name,
              hex(seed, 3 * n), hex(pk.p, 2 * n), hex(want + 2 * n, 2 * n));
    else
        for (unsigned i = 0; i < 2 * n; i++) CHECK(pk.p[i] == 0x3c, "keygen-stray", "%s: wrote to memory it was not given", s->r->name);
    CHECK(gb_ok(&sk) && gb_ok(&pk), "keygen-bounds", "%s: wrote outside a key buffer", s->r->name);
    distinct(hash64(seed, 3 * n, id % 2 + 2 * (uint64_t)(s->r - ref_sets)));
    if (k < 2) sample("%s seed %s -> root %s, public key asked for: %d", s->r->name, hex(seed, 3 * n), hex(sk.p + 3 * n, n), with_pk);
    gb_free(&sk);
    gb_free(&pk);
}
