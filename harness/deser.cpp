// DeserializeForm on top of an arbitrary byte decoder: whatever (a, b) comes out
// of the bytes, the result is a reduced form of exactly the given discriminant.
// VP_STUB: ^bqfc_deserialize(\(|$) -> stub_bqfc
#include "vp.h"
#include "verifier.h"
#include "formgen.h"
extern "C" int has_lzcnt_hard() { return 0; }
extern "C" unsigned int lzcnt64_soft(unsigned long long x) { return x ? __builtin_clzll(x) : 64; }
extern "C" unsigned int lzcnt64_hard(unsigned long long x) { return x ? __builtin_clzll(x) : 64; }
static mpz_t s_a, s_b, s_D; static int s_fail, s_calls, s_bad; static const uint8_t* s_bytes; static size_t s_size; static bool s_strict;
extern "C" int stub_bqfc(mpz_t a, mpz_t b, const mpz_t D, const uint8_t* str, size_t size, size_t d_bits, bool strict) {
    s_calls++;
    if (mpz_cmp(D, s_D) != 0 || str != s_bytes || size != s_size || strict != s_strict || d_bits != mpz_sizeinbase(s_D, 2)) s_bad = 1;
    mpz_set(a, s_a); mpz_set(b, s_b);
    return s_fail;
}
extern "C" void vp_main() {
    // a: the given value (possibly <= 0); b: b0 + k; D = -(4|a|*step*t + r)
    int64_t b0 = vp_param(1), n = vp_param(2); uint64_t tbits = vp_param(3), rn = vp_param(4), ash = vp_param(5);
    mpz_inits(s_a, s_b, s_D, NULL);
    mpz_set_si(s_a, vp_param(0));
    if (ash) { mpz_mul_2exp(s_a, s_a, ash); mpz_add_ui(s_a, s_a, 1); }
    uint64_t k = vp_bits("b", 12); vp_assume(k < (uint64_t)n);
    mpz_set_si(s_b, b0 + (int64_t)vp_pick(k, 4096));
    if (ash) mpz_addmul_ui(s_b, s_a, 1);
    uint64_t r = vp_bits("r", 12); vp_assume(r < rn);
    int64_t rv = vp_pick(r, 4096);
    mpz_t m, t; mpz_inits(m, t, NULL);
    mpz_abs(m, s_a); mpz_mul_2exp(m, m, 2); if (mpz_sgn(m) == 0) mpz_set_ui(m, 4);
    vp_mpz_u(t, "t", tbits);
    if (tbits > 8) { mpz_t p; mpz_init(p); mpz_set_ui(p, 1); mpz_mul_2exp(p, p, tbits - 1); mpz_add(t, t, p); }   // narrow range of sizes
    mpz_mul(s_D, m, t);
    if (ash) { mpz_mul(t, s_b, s_b); mpz_fdiv_r(t, t, m); mpz_sub(s_D, t, s_D); mpz_sub_ui(s_D, s_D, rv); }  // r = 0 is the divisible residue
    else { mpz_add_ui(s_D, s_D, rv); mpz_neg(s_D, s_D); }
    vp_assume(mpz_sgn(s_D) < 0);
    s_fail = vp_bits("fail", 1) ? -1 : 0;
    uint8_t* bytes = new uint8_t[100];
    s_bytes = bytes; s_size = 100; s_strict = vp_param(6);
    integer D; mpz_set(D.impl, s_D);
    form f; bool ok = true;
    try { f = s_strict ? DeserializeForm(D, bytes, 100, true) : DeserializeForm(D, bytes, 100); } catch (const std::runtime_error&) { ok = false; }
    vp_check(s_calls == 1 && !s_bad, "the byte decoder sees the given bytes, length, discriminant, its size and the strictness");
    vp_check_mpz_eq(D.impl, s_D, "the discriminant is left alone");
    mpz_mul(t, s_b, s_b); mpz_sub(t, t, s_D);
    bool div = false;
    if (mpz_sgn(s_a) > 0) { mpz_t q; mpz_init(q); mpz_fdiv_r(q, t, m); div = mpz_sgn(q) == 0; }
    if (!ok) { vp_reach("reject"); vp_check(s_fail || !div, "decoded coefficients with positive a that fit the discriminant are accepted"); }
    else {
        vp_check(!s_fail, "a decoder failure is an exception");
        vp_check(div, "a must be positive and 4a must divide b^2 - D");
        mpz_t E; mpz_init(E); o_disc(E, f.a.impl, f.b.impl, f.c.impl);
        vp_check_mpz_eq(E, s_D, "the form has exactly the given discriminant");
        vp_check(mpz_cmpabs(f.b.impl, f.a.impl) <= 0, "|b| <= a");
        vp_check(mpz_cmp(f.a.impl, f.c.impl) <= 0, "a <= c");
        if (mpz_cmp(f.a.impl, f.c.impl) == 0 || mpz_cmpabs(f.b.impl, f.a.impl) == 0) vp_check(mpz_sgn(f.b.impl) >= 0, "b >= 0 on the boundary");
        of o; mpz_set(o.a, s_a); mpz_set(o.b, s_b); mpz_fdiv_q(o.c, t, m);
        o_reduce(o);
        vp_check_mpz_eq(f.a.impl, o.a, "a of the class of the decoded coefficients");
        vp_check_mpz_eq(f.b.impl, o.b, "b of the class of the decoded coefficients");
        vp_reach("accept");
    }
}
