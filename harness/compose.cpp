// Composition and squaring: a1, a2, b1, b2 and the residue of c1 are split on
// their values; c1 = m*t + r with t symbolic, c2 follows from the discriminant.
#include "vp.h"
#include "verifier.h"
#include <cassert>
#include <iostream>
using namespace std;
#include "vdf_original.h"
#include "nucomp.h"
#include "formgen.h"
extern "C" int has_lzcnt_hard() { return 0; }
extern "C" unsigned int lzcnt64_soft(unsigned long long x) { return x ? __builtin_clzll(x) : 64; }
extern "C" unsigned int lzcnt64_hard(unsigned long long x) { return x ? __builtin_clzll(x) : 64; }

static void show(const char* s, const form& f) { if (0) { vp_log(s, 0); vp_log_mpz("a", f.a.impl); vp_log_mpz("b", f.b.impl); vp_log_mpz("c", f.c.impl); } }
extern "C" void vp_main() {
    uint64_t which = vp_param(0), m = vp_param(3), tbits = vp_param(4);
    int64_t a1 = vp_param(1), a2 = vp_param(2);
    bool sq = which == 1 || which == 3 || which == 4;
    uint64_t i1 = vp_bits("b1", 8), i2 = vp_bits("b2", 8), ir = vp_bits("r", 16);
    vp_assume(vp_and(vp_and(i1 < 3 * (uint64_t)a1, sq ? i2 == 0 : i2 < 3 * (uint64_t)a2), ir < m));
    int64_t b1 = 1 - a1 + (int64_t)vp_pick(i1, 4096), b2 = sq ? b1 : 1 - a2 + (int64_t)vp_pick(i2, 4096), r = vp_pick(ir, 70000);
    if ((b1 ^ b2) & 1) { vp_reach("parity"); return; }
    if (sq) a2 = a1;
    int64_t k = b2 * b2 - b1 * b1 + 4 * a1 * r;             // 4 a2 c2 = k + 4 a1 m t
    if (k % (4 * a2) || (a1 * (int64_t)m) % a2) { vp_reach("no such discriminant"); return; }
    // both forms primitive
    int64_t g1 = gcd64(a1, b1 < 0 ? -b1 : b1), g2 = gcd64(a2, b2 < 0 ? -b2 : b2);
    if (gcd64(g1, gcd64(m, r)) != 1) { vp_reach("imprimitive"); return; }
    if (sq && which != 1 && g1 != 1) { vp_reach("gcd(a,b) > 1"); return; }   // documented for prime discriminants
    form f1, f2, res; integer t, D, L, E; of o, p;
    vp_mpz_u(t.impl, "t", tbits);
    mpz_set_si(f1.a.impl, a1); mpz_set_si(f1.b.impl, b1);
    mpz_set_si(f2.a.impl, a2); mpz_set_si(f2.b.impl, b2);
    mpz_set_si(f1.c.impl, (int64_t)m); mpz_mul(f1.c.impl, f1.c.impl, t.impl); mpz_set_si(E.impl, r); mpz_add(f1.c.impl, f1.c.impl, E.impl);
    mpz_set_si(f2.c.impl, a1 * (int64_t)m / a2); mpz_mul(f2.c.impl, f2.c.impl, t.impl); mpz_set_si(E.impl, k / (4 * a2)); mpz_add(f2.c.impl, f2.c.impl, E.impl);
    o_disc(D.impl, f1.a.impl, f1.b.impl, f1.c.impl);
    vp_assume(mpz_sgn(D.impl) < 0);
    mpz_set_si(L.impl, (int64_t)vp_param(5));
    o_compose(o, a1, b1, a2, b2, D.impl);
    o_reduce(o);
    if (which == 0) nucomp_form(res, f1, f2, D, L);
    else if (which == 1) nudupl_form(res, f1, D, L);
    else if (which == 2) res = f1 * f2;
    else if (which == 3) res = f1 * f1;
    else if (which == 4) {
        vdf_original v; vdf_original::form g;
        g.a[0] = f1.a.impl[0]; g.b[0] = f1.b.impl[0]; g.c[0] = f1.c.impl[0];
        vdf_original::form* q = v.square(g);
        mpz_set(res.a.impl, q->a); mpz_set(res.b.impl, q->b); mpz_set(res.c.impl, q->c);
    } else if (which == 5) { nucomp_form(f1, f1, f2, D, L); mpz_swap(res.a.impl, f1.a.impl); mpz_swap(res.b.impl, f1.b.impl); mpz_swap(res.c.impl, f1.c.impl); }   // result over an operand
    show("res", res);
    vp_check(mpz_sgn(res.a.impl) > 0, "the result is positive definite");
    o_disc(E.impl, res.a.impl, res.b.impl, res.c.impl);
    vp_check_mpz_eq(E.impl, D.impl, "the result has the discriminant of the operands");
    mpz_set(p.a, res.a.impl); mpz_set(p.b, res.b.impl); mpz_set(p.c, res.c.impl);
    if (which >= 2 && which <= 4) {
        vp_check(res.is_reduced(), "the result is reduced");
    } else o_reduce(p);
    vp_check_mpz_eq(p.a, o.a, "the result is in the class of the product (a)");
    vp_check_mpz_eq(p.b, o.b, "the result is in the class of the product (b)");
    vp_check_mpz_eq(p.c, o.c, "the result is in the class of the product (c)");
    vp_reach("ok");
}
