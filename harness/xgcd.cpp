// The partial Euclid step of NUCOMP/NUDUPL.
#include "vp.h"
#include "verifier.h"
#include "nucomp.h"
extern "C" int has_lzcnt_hard() { return 0; }
extern "C" unsigned int lzcnt64_soft(unsigned long long x) { return 0; }
extern "C" unsigned int lzcnt64_hard(unsigned long long x) { return 0; }
extern "C" void vp_main() {
    uint64_t bits = vp_param(0), lo = vp_param(1), n = vp_param(2);
    integer r1, r2, L, co1, co2;
    uint16_t k = vp_bits("r2", 12), R1 = vp_bits("r1", bits), l = vp_bits("L", bits);
    vp_assume(k < n);
    uint16_t R2 = lo + (uint16_t)vp_pick(k, 5000);
    vp_assume(R1 < R2);
    mpz_set_ui(r1.impl, R1); mpz_set_ui(r2.impl, R2); mpz_set_ui(L.impl, l);
    mpz_xgcd_partial(co2.impl, co1.impl, r2.impl, r1.impl, L.impl);
    // consecutive remainders around the bound
    vp_check(vp_and(mpz_sgn(r1.impl) >= 0, mpz_cmp_ui(r1.impl, R2) < 0), "remainder range");
    vp_check(vp_and(mpz_sgn(r2.impl) > 0, mpz_cmp_ui(r2.impl, R2) <= 0), "remainder range");
    vp_check(vp_and(mpz_cmpabs_ui(co1.impl, R2) <= 0, mpz_cmpabs_ui(co2.impl, R2) <= 0), "cofactors do not exceed the modulus");
    uint16_t s1 = mpz_get_ui(r1.impl), s2 = mpz_get_ui(r2.impl);
    int16_t c1 = (int16_t)mpz_get_si(co1.impl), c2 = (int16_t)mpz_get_si(co2.impl);
    vp_check(s1 <= l || s1 == 0, "the last remainder does not exceed the bound");
    vp_check(vp_or(s2 > l, s2 == R2), "the one before it does");
    vp_check(s1 < s2, "remainders decrease");
    // r1 = +-co1 R1, r2 = +-co2 R1 (mod R2)
    int16_t d = (int16_t)(c2 * (int16_t)s1 - c1 * (int16_t)s2);
    vp_check(vp_or(d == (int16_t)R2, d == (int16_t)-R2), "the cofactor determinant is the modulus");
    vp_check((int16_t)((int16_t)(c1 * (int16_t)R1) + (int16_t)s1) % (int16_t)R2 == 0, "the remainder is minus its cofactor times the input");
    vp_check((int16_t)((int16_t)(c2 * (int16_t)R1) + (int16_t)s2) % (int16_t)R2 == 0, "the previous remainder is minus its cofactor times the input");
    vp_reach("ok");
}
