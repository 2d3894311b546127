// Composition and squaring with multi-word a: a1, a2 fixed, b and the residue of
// c split over a window, the rest of c symbolic.
#include "vp.h"
#include "verifier.h"
#include "nucomp.h"
#include "formgen.h"
extern "C" int has_lzcnt_hard() { return 0; }
extern "C" unsigned int lzcnt64_soft(unsigned long long x) { return x ? __builtin_clzll(x) : 64; }
extern "C" unsigned int lzcnt64_hard(unsigned long long x) { return x ? __builtin_clzll(x) : 64; }

// a fixed odd number of the given size
static void big(mpz_ptr z, uint64_t seed, uint64_t bits) {
    mpz_t t; mpz_init(t);
    mpz_set_ui(z, 1);
    while (mpz_sizeinbase(z, 2) < bits) { mpz_mul_2exp(z, z, 32); seed = seed * 6364136223846793005u + 1442695040888963407u; mpz_set_ui(t, seed >> 32); mpz_add(z, z, t); }
    mpz_fdiv_r_2exp(z, z, bits); mpz_setbit(z, bits - 1); mpz_setbit(z, 0);
    mpz_clear(t);
}
extern "C" void vp_main() {
    uint64_t which = vp_param(0), n = vp_param(3), tbits = vp_param(4), lbits = vp_param(5);
    integer a1, a2, b1, b2, r, t, D, L, E, x, m; of o, p; form f1, f2, res;
    big(a1.impl, vp_param(6), vp_param(1)); big(a2.impl, vp_param(7), vp_param(2));
    if (which == 1) mpz_set(a2.impl, a1.impl);
    uint64_t i = vp_bits("b", 16), j = vp_bits("r", 16);
    vp_assume(vp_and(i < n, j < n));
    i = vp_pick(i, 4096); j = vp_pick(j, 4096);
    big(b1.impl, i * 77 + 5, vp_param(1) - 1); if (i & 1) mpz_neg(b1.impl, b1.impl);
    big(b2.impl, i * 55 + 3, vp_param(2) - 1); if (i & 2) mpz_neg(b2.impl, b2.impl);
    if (which == 1) mpz_set(b2.impl, b1.impl);
    if (!mpz_invert(x.impl, which == 1 ? b1.impl : a1.impl, a2.impl)) { vp_reach("not coprime"); return; }
    if (which == 1) { big(r.impl, j * 99 + 1, vp_param(1)); mpz_set(m.impl, a1.impl); }
    else {
        // c1 = (b1^2 - b2^2)/4 / a1 mod a2
        mpz_mul(r.impl, b1.impl, b1.impl); mpz_submul(r.impl, b2.impl, b2.impl); mpz_fdiv_q_2exp(r.impl, r.impl, 2);
        mpz_mul(r.impl, r.impl, x.impl); mpz_neg(r.impl, r.impl); mpz_neg(r.impl, r.impl); mpz_fdiv_r(r.impl, r.impl, a2.impl);
        big(E.impl, j * 33 + 7, vp_param(1)); mpz_addmul(r.impl, a2.impl, E.impl);
        mpz_mul(m.impl, a1.impl, a2.impl);
    }
    vp_mpz_u(t.impl, "t", tbits - 1); mpz_set_ui(E.impl, 1); mpz_mul_2exp(E.impl, E.impl, tbits - 1); mpz_add(t.impl, t.impl, E.impl);
    mpz_set(f1.a.impl, a1.impl); mpz_set(f1.b.impl, b1.impl);
    mpz_mul(f1.c.impl, m.impl, t.impl); mpz_add(f1.c.impl, f1.c.impl, r.impl);
    o_disc(D.impl, f1.a.impl, f1.b.impl, f1.c.impl);
    vp_assume(mpz_sgn(D.impl) < 0);
    mpz_set_ui(L.impl, 1); mpz_mul_2exp(L.impl, L.impl, lbits);
    // B = b1 + 2 a1 k, C = (B^2 - D) / 4A
    if (which == 1) { mpz_mul(x.impl, x.impl, r.impl); mpz_neg(x.impl, x.impl); }
    else { mpz_sub(E.impl, b2.impl, b1.impl); mpz_fdiv_q_2exp(E.impl, E.impl, 1); mpz_mul(x.impl, x.impl, E.impl); }
    mpz_fdiv_r(x.impl, x.impl, a2.impl);
    mpz_mul(o.b, x.impl, a1.impl); mpz_mul_2exp(o.b, o.b, 1); mpz_add(o.b, o.b, b1.impl);
    mpz_mul(o.a, a1.impl, a2.impl);
    mpz_mul(o.c, o.b, o.b); mpz_sub(o.c, o.c, D.impl); mpz_fdiv_q(o.c, o.c, o.a); mpz_fdiv_q_2exp(o.c, o.c, 2);
    if (which == 1) nudupl_form(res, f1, D, L);
    else {
        mpz_set(f2.a.impl, a2.impl); mpz_set(f2.b.impl, b2.impl);
        mpz_mul(E.impl, b2.impl, b2.impl); mpz_sub(E.impl, E.impl, D.impl); mpz_fdiv_q(E.impl, E.impl, a2.impl); mpz_fdiv_q_2exp(f2.c.impl, E.impl, 2);
        nucomp_form(res, f1, f2, D, L);
    }
    o_disc(E.impl, res.a.impl, res.b.impl, res.c.impl);
    vp_check_mpz_eq(E.impl, D.impl, "the result has the discriminant of the operands");
    vp_check(mpz_sgn(res.a.impl) > 0, "the result is positive definite");
    // the class: compare reduced representatives
    mpz_set(p.a, res.a.impl); mpz_set(p.b, res.b.impl); mpz_set(p.c, res.c.impl);
    o_reduce(o); o_reduce(p);
    vp_check_mpz_eq(p.a, o.a, "the result is in the class of the product (a)");
    vp_check_mpz_eq(p.b, o.b, "the result is in the class of the product (b)");
    vp_check_mpz_eq(p.c, o.c, "the result is in the class of the product (c)");
    vp_reach("ok");
}
