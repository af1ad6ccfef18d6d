/*
 * Optional: parameter sets whose hash functions report what they produce (needs the library's internal
 * parameter set structure; the monitors do without when this does not compile).
 */
#include "tiny_sphincs.h"
#include "internal.h"
void watch_hook(int kind, unsigned char *output, unsigned n);
static struct ts_parameter_set copy[16];
static const struct ts_parameter_set *orig[16];
#define O(ctx) orig[(ctx)->ps - copy]
static void w_prf_msg(unsigned char *output, const unsigned char *opt, const unsigned char *message, size_t len, struct ts_context *ctx) {
    const struct ts_parameter_set *o = O(ctx);
    o->prf_msg(output, opt, message, len, ctx);
    watch_hook(0, output, o->n);
}
static void w_prf(unsigned char *output, struct ts_context *ctx) {
    const struct ts_parameter_set *o = O(ctx);
    o->prf(output, ctx);
    watch_hook(1, output, o->n);
}
static void w_f(unsigned char *output, const unsigned char *in, struct ts_context *ctx) {
    const struct ts_parameter_set *o = O(ctx);
    o->f(output, in, ctx);
    watch_hook(2, output, o->n);
}
static void w_final(unsigned char *output, union t_iterator *t, const struct ts_context *ctx) {
    const struct ts_parameter_set *o = O(ctx);
    o->final_t(output, t, ctx);
    watch_hook(3, output, o->n);
}
const struct ts_parameter_set *h_watch_make(const struct ts_parameter_set *ps, int slot) {
    if (slot < 0 || slot >= 16) return 0;
    orig[slot] = ps;
    copy[slot] = *ps;
    copy[slot].prf_msg = w_prf_msg;
    copy[slot].prf = w_prf;
    copy[slot].f = w_f;
    copy[slot].final_t = w_final;
    return &copy[slot];
}
