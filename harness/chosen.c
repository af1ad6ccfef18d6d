/*
 * Optional: parameter sets whose message hash is replaced, so that a workload can choose the position
 * in the hypertree and the FORS indices (64 bits of position cannot be searched for).  Needs the
 * library's internal parameter set structure; the monitors do without when this does not compile.
 */
#include <string.h>
#include "tiny_sphincs.h"
#include "internal.h"

static __thread unsigned char digest[64];
static void chosen_hash(unsigned char *output, size_t len_output, const unsigned char *randomness,
                        const unsigned char *message, size_t len_message, struct ts_context *ctx) {
    (void)randomness; (void)message; (void)len_message; (void)ctx;
    memset(output, 0xA5, len_output);
    memcpy(output, digest, len_output < sizeof digest ? len_output : sizeof digest);
}
/* the value that stands for the FORS public key, when one is to be forced */
static __thread unsigned char forced[64];
static __thread int forcing;
static __thread unsigned forced_count;
static __thread const union t_iterator *fors_iter;
static __thread const struct ts_parameter_set *origin[16];
static struct ts_parameter_set copy[16];
static void f_init(union t_iterator *t, struct ts_context *ctx) {
    const struct ts_parameter_set *o = origin[ctx->ps - copy];
    unsigned type = o->sha2 ? ctx->adr[9] : ctx->adr[19];
    if (t == fors_iter) fors_iter = 0;
    if (type == 4) fors_iter = t;
    o->init_t(t, ctx);
}
static void f_final(unsigned char *output, union t_iterator *t, const struct ts_context *ctx) {
    const struct ts_parameter_set *o = origin[ctx->ps - copy];
    o->final_t(output, t, ctx);
    if (t != fors_iter) return;
    fors_iter = 0;
    memcpy(output, forced, o->n);
    forced_count++;
}
void h_force_fors_pk(const unsigned char *v, size_t n) {
    forcing = v != 0;
    forced_count = 0;
    fors_iter = 0;
    if (v) memcpy(forced, v, n);
}
unsigned h_forced(void) { return forced_count; }
const struct ts_parameter_set *h_chosen_make(const struct ts_parameter_set *ps, int slot) {
    if (slot < 0 || slot >= 16) return 0;
    copy[slot] = *ps;
    copy[slot].hash_msg = chosen_hash;
    origin[slot] = ps;
    if (forcing) {
        copy[slot].init_t = f_init;
        copy[slot].final_t = f_final;
    }
    return &copy[slot];
}
void h_chosen_digest(const unsigned char *d, size_t n) {
    memset(digest, 0, sizeof digest);
    memcpy(digest, d, n < sizeof digest ? n : sizeof digest);
}
