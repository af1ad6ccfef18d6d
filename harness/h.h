/* Common part of the monitoring harnesses: cases, workers, oracles' plumbing, verdict lines. */
#ifndef H_H_
#define H_H_
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "tiny_sphincs.h"
#include "ref.h"

/* ---- deterministic randomness */
typedef struct { uint64_t s[4]; } rng;
void rng_init(rng *r, uint64_t seed, uint64_t a, uint64_t b);
uint64_t rnd(rng *r);
static inline uint64_t rnd_below(rng *r, uint64_t n) { return n ? rnd(r) % n : 0; }
static inline uint64_t rnd_in(rng *r, uint64_t lo, uint64_t hi) { return lo + rnd_below(r, hi - lo + 1); }
void rnd_fill(rng *r, void *p, size_t n);
uint64_t hash64(const void *p, size_t n, uint64_t h);

/* ---- parameter sets available in this build */
typedef struct {
    const ref_ps *r;
    const struct ts_parameter_set *ps;
} hset;
extern const hset h_sets[];
extern const int h_nsets;
const hset *h_set(const char *name); /* NULL when the build does not support it */

/* ---- run description (from the command line) */
extern uint64_t h_seed;
extern int h_thorough;
extern double h_scale;      /* multiplies case counts */
extern const char *h_tag;   /* name of the build configuration */
extern const char *h_mode;

/* ---- implemented by each harness */
uint64_t h_ncases(void);            /* called once, before the workers start */
void h_case(uint64_t id, rng *r);   /* r is seeded from (seed, id) */
void h_final(void);                 /* in every worker, after its last case */
extern double h_case_cpu_limit;     /* seconds of CPU per case before it counts as a hang */
extern int h_default_jobs;

/* ---- verdicts and evidence */
/* key: stable identification of what fails (for known findings) */
void viol(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
#define CHECK(cond, key, ...) do { if (!(cond)) viol(key, __VA_ARGS__); } while (0)
void stat_add(const char *name, uint64_t v); /* summed over workers; name must be a literal */
void distinct(uint64_t h);                   /* counts distinct non-trivial cases, over all workers */
void sample(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
uint64_t h_cur_case(void);
int h_viols(void);
const char *hex(const void *p, size_t n);    /* static ring of buffers */
void h_case_rearm(void);                     /* restart the per-case CPU watchdog */

/* ---- random functions handed to the library: stream of bytes from a fixed buffer */
typedef struct {
    const uint8_t *data;
    size_t len, used;
    unsigned calls, fail_at;  /* fail_at: 1-based call number which fails, 0 = never */
    int scribble;             /* bytes to write before failing: 0 none, 1 half, 2 all */
    int overrun;
    size_t req[8];
} h_rng_state;
extern __thread h_rng_state h_rs;
int h_rng_cb(unsigned char *p, size_t n);
void h_rng_set(const uint8_t *data, size_t len);

/* ---- exact-size buffers with canaries (plain builds) or red zones (sanitizer builds) */
typedef struct { uint8_t *p; size_t n; uint8_t *base; unsigned off; uint8_t salt; } gbuf;
gbuf gb_new(size_t n);
gbuf gb_newa(size_t n, unsigned off); /* p is off bytes past a 16-byte boundary */
int gb_ok(const gbuf *g);
void gb_free(gbuf *g);

/* ---- random message lengths/contents biased to hash-block boundaries */
size_t h_msglen(rng *r);
/* one chunk size from a mix of styles */
unsigned h_chunk(rng *r, int style, unsigned n);
#define H_CHUNK_STYLES 8

/* ---- key material, messages, fixtures made by the reference */
void h_seed_material(rng *r, const ref_ps *ps, uint8_t *seed96); /* SK.seed|SK.prf|PK.seed, often structured */
void h_opt_fill(rng *r, const uint8_t *sk, unsigned n, uint8_t *opt32); /* randomiser: random, often structured */
void h_msg_fill(rng *r, uint8_t *m, size_t n);                   /* random or structured contents */

typedef struct {
    const hset *s;
    unsigned n, siglen;
    uint8_t sk[128];
    const uint8_t *pk;      /* sk + 2n */
    uint8_t *msg;
    size_t mlen;
    int det;                /* signed deterministically (optrand == PK.seed) */
    uint8_t opt[32];
    uint8_t *sig;
} fx;
/* builds per_f (per_s) fixtures for every f (s) parameter set of the build; call from h_ncases() */
void fx_build(int per_f, int per_s);
extern fx *h_fx;
extern int h_nfx;
int fx_count(const hset *s);
const fx *fx_get(const hset *s, int k);
int h_is_s(const ref_ps *ps); /* one of the slow ("s") parameter sets */

/* whole signature by the library, in chunks of a style; returns bytes produced */
unsigned h_lib_sign(rng *r, const hset *s, const uint8_t *sk, const uint8_t *msg, size_t mlen,
                    const uint8_t *opt, int style, uint8_t *out, unsigned cap);
/* whole verification by the library in chunks of a style; all intermediate results are recorded */
typedef struct { int final, all_updates_ok, early, chunks; } vres;
vres h_lib_verify(rng *r, const hset *s, const uint8_t *pk, const uint8_t *msg, size_t mlen,
                  const uint8_t *sig, size_t siglen, int style, int poll);
/* cases per f and per s set (slow ones first); scaled by h_scale, at least 1 when the count is not 0 */
uint64_t h_plan(double per_f, double per_s);
const hset *h_plan_set(uint64_t id, int *k);
#define SIGMAX 50000
/* a parameter set with a message hash of the caller's choice; NULL when not available (see chosen.c) */
const struct ts_parameter_set *h_chosen(const hset *s, const uint8_t *digest);
/* digest bytes for a position; fors indices at random */
void h_digest(rng *r, const ref_ps *ps, uint64_t tree, unsigned leaf, uint8_t *digest);
/* one at an extreme position, with extreme FORS indices in half of the cases; k enumerates the kinds of extremes */
void h_extreme_digest(rng *r, const ref_ps *ps, unsigned k, uint8_t *digest);
/* makes the next h_chosen() sets use v in the place of the FORS public key (0: no more); h_forced counts the times */
void h_force_fors_pk(const unsigned char *v, size_t n);
unsigned h_forced(void);
/* an n-byte value whose Winternitz checksum is extreme or at a carry; k enumerates the kinds */
void h_extreme_value(rng *r, unsigned n, unsigned k, uint8_t *v);
#endif
