// Strict and lenient decompression differ exactly by the |b| <= a gate.
#include "vp.h"
#include "verifier.h"
extern "C" void vp_main() {
    struct qfb_c c; mpz_inits(c.a, c.t, c.g, c.b0, NULL);
    vp_mpz_u(c.a, "a", 520); vp_mpz(c.t, "t", 260); vp_mpz_u(c.g, "g", 257); vp_mpz_u(c.b0, "b0", 257);
    c.b_sign = vp_bits("sign", 1);
    mpz_t a, b, e, f, D; mpz_inits(a, b, e, f, D, NULL);
    vp_mpz(D, "D", 1025);
    vp_assume(mpz_sgn(D) < 0);
    int r1 = bqfc_decompr(a, b, D, &c, false);
    int r2 = bqfc_decompr(e, f, D, &c, true);
    if (r1 == 0) {
        vp_reach("lenient");
        if (mpz_cmpabs(b, a) > 0) { vp_reach("gated"); vp_check(r2 != 0, "strict mode rejects |b| > a"); }
        else {
            vp_check(r2 == 0, "strict mode accepts what lenient mode accepts with |b| <= a");
            vp_check(vp_and(mpz_cmp(a, e) == 0, mpz_cmp(b, f) == 0), "both modes decode to the same form");
        }
    } else vp_check(r2 != 0, "strict mode rejects whatever lenient mode rejects");
    vp_reach("done");
}
