/* Writes fixtures (made by the reference only) for all 12 parameter sets to the file given as mode. */
#include "h.h"
int h_default_jobs = 1;
static int fast;
uint64_t h_ncases(void) { fx_build(2, 1); return 1; }
void h_case(uint64_t id, rng *r) {
    (void)id; (void)r; (void)fast;
    FILE *f = fopen(h_mode, "wb");
    if (!f) abort();
    for (int i = 0; i < h_nfx; i++) {
        fx *x = &h_fx[i];
        uint32_t h[8] = {0x46583031, (uint32_t)(x->s->r - ref_sets), x->n, x->siglen, (uint32_t)x->mlen, (uint32_t)x->det, 0, 0};
        fwrite(h, 1, sizeof h, f);
        fwrite(x->sk, 1, 128, f);
        fwrite(x->opt, 1, 32, f);
        fwrite(x->msg, 1, x->mlen, f);
        fwrite(x->sig, 1, x->siglen, f);
    }
    if (fclose(f)) abort();
    distinct(1);
}
