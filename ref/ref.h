/*
 * Independent SPHINCS+ (round 3.1 / "NIST draft, consistent_w", simple) reference, used as the
 * oracle of the monitors.  Written from the specification; shares no code with /repo.
 * Hash functions come from OpenSSL (SHA-2) and from an own vectorised Keccak (SHAKE256).
 */
#ifndef REF_H_
#define REF_H_
#include <stddef.h>
#include <stdint.h>

typedef struct {
    const char *name;           /* "sha2_128f" ... */
    unsigned n, k, t, h, d, hm;
    int sha2;
} ref_ps;

extern const ref_ps ref_sets[12];
const ref_ps *ref_lookup(const char *name);

unsigned ref_siglen(const ref_ps *ps);
unsigned ref_digest_len(const ref_ps *ps);

/* a digest split into its parts */
typedef struct {
    unsigned fors[64];
    uint64_t tree;
    unsigned leaf;
} ref_pos;

/* seed: 3n bytes SK.seed | SK.prf | PK.seed; sk: 4n bytes */
void ref_keygen(const ref_ps *ps, const uint8_t *seed, uint8_t *sk);
void ref_R(const ref_ps *ps, const uint8_t *sk, const uint8_t *optrand,
           const uint8_t *msg, size_t len, uint8_t *R);
/* pk: 2n bytes */
void ref_position(const ref_ps *ps, const uint8_t *pk, const uint8_t *R,
                  const uint8_t *msg, size_t len, ref_pos *pos);
/* computes at least the first `want` bytes of the signature (buffer is always siglen bytes) */
void ref_sign_prefix(const ref_ps *ps, const uint8_t *sk, const uint8_t *optrand,
                     const uint8_t *msg, size_t len, uint8_t *sig, size_t want);
void ref_sign(const ref_ps *ps, const uint8_t *sk, const uint8_t *optrand,
              const uint8_t *msg, size_t len, uint8_t *sig);
int ref_verify(const ref_ps *ps, const uint8_t *pk, const uint8_t *msg, size_t len,
               const uint8_t *sig, size_t siglen);
/*
 * Walk a signature of the right length: roots[0..n) is the FORS public key, then for every layer
 * the root the layer's authentication path leads to (d more values).
 */
void ref_walk(const ref_ps *ps, const uint8_t *pk, const uint8_t *msg, size_t len,
              const uint8_t *sig, ref_pos *pos, uint8_t *roots);

/* the same at a position of the caller's choice */
void ref_parse_digest(const ref_ps *ps, const uint8_t *digest, ref_pos *pos);
void ref_sign_at(const ref_ps *ps, const uint8_t *sk, const ref_pos *at, uint8_t *sig, size_t want);
void ref_walk_at(const ref_ps *ps, const uint8_t *pk, const uint8_t *sig, const ref_pos *pos, uint8_t *roots);
/* when set, this value takes the place of the FORS public key in ref_sign_at and ref_walk_at */
extern const uint8_t *ref_forced_fors_pk;
void ref_wots_digits(const ref_ps *ps, const uint8_t *value, unsigned *digits);

/* plain hashes (independent implementations) */
void ref_sha256(const uint8_t *m, size_t len, uint8_t out[32]);
void ref_sha512(const uint8_t *m, size_t len, uint8_t out[64]);
void ref_shake256(const uint8_t *m, size_t len, uint8_t *out, size_t outlen);

#endif
