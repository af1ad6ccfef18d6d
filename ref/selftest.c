/* Checks the reference model itself: known answers of the official code, sign/verify agreement. */
#include <stdio.h>
#include <string.h>
#include "ref.h"
static struct { const char *name; uint8_t pk[64], optrand[32], hash[32]; } kat[] = {
#include "kat.h"
};
int main(int argc, char **argv) {
    int bad = 0, done = 0;
    (void)argv;
    for (unsigned i = 0; i < sizeof kat / sizeof *kat; i++) {
        const ref_ps *ps = ref_lookup(kat[i].name);
        if (!ps) { printf("no set %s\n", kat[i].name); return 2; }
        if (argc > 1 && ps->hm > 4) continue;
        uint8_t seed[96], sk[128], h[32];
        static uint8_t sig[50000];
        for (int j = 0; j < 96; j++) seed[j] = j;
        ref_keygen(ps, seed, sk);
        ref_sign(ps, sk, kat[i].optrand, (const uint8_t *)"abc", 3, sig);
        ref_sha256(sig, ref_siglen(ps), h);
        int ok = !memcmp(sk + 2 * ps->n, kat[i].pk, 2 * ps->n) && !memcmp(h, kat[i].hash, 32) &&
                 ref_verify(ps, sk + 2 * ps->n, (const uint8_t *)"abc", 3, sig, ref_siglen(ps));
        sig[5] ^= 1;
        ok = ok && !ref_verify(ps, sk + 2 * ps->n, (const uint8_t *)"abc", 3, sig, ref_siglen(ps));
        printf("%s %s\n", kat[i].name, ok ? "ok" : "BAD");
        bad += !ok;
        done++;
    }
    return bad || !done;
}
