// Reduction: a and b are split on their values, c is any integer of the given
// size that makes the form positive definite.
#include "vp.h"
#include "verifier.h"
#include <cassert>
#include <iostream>
using namespace std;
#include "vdf_original.h"
#include "Reducer.h"
#include "formgen.h"

// decided by P21; the fast reducer may take either variant
extern "C" int has_lzcnt_hard() { return vp_param(6) & 1; }
extern "C" unsigned int lzcnt64_soft(unsigned long long x) { return x ? __builtin_clzll(x) : 64; }
extern "C" unsigned int lzcnt64_hard(unsigned long long x) { return x ? __builtin_clzll(x) : 64; }

extern "C" void vp_main() {
    uint64_t which = vp_param(0), cbits = vp_param(4);
    int64_t av = vp_param(1), b0 = vp_param(2), n = vp_param(3);
    uint64_t k = vp_bits("b", 12);
    vp_assume(k < (uint64_t)n);
    int64_t bv = b0 + (int64_t)vp_pick(k, 4096);
    form f; of o; integer D, E;
    mpz_set_si(f.a.impl, av); mpz_set_si(f.b.impl, bv); vp_mpz_u(f.c.impl, "c", cbits);
    if (vp_param(7)) { integer p(1); mpz_mul_2exp(p.impl, p.impl, cbits - 1); vp_assume(mpz_cmp(f.c.impl, p.impl) >= 0); }
    if (vp_param(5)) mpz_swap(f.a.impl, f.c.impl);          // the large coefficient first
    o_disc(D.impl, f.a.impl, f.b.impl, f.c.impl);
    vp_assume(mpz_sgn(D.impl) < 0);
    mpz_set(o.a, f.a.impl); mpz_set(o.b, f.b.impl); mpz_set(o.c, f.c.impl);
    o_reduce(o);
    if (which == 0) f.reduce();
    else if (which == 1) { PulmarkReducer r; r.reduce(f); }
    else {
        vdf_original v; vdf_original::form g;
        g.a[0] = f.a.impl[0]; g.b[0] = f.b.impl[0]; g.c[0] = f.c.impl[0];
        v.reduce(g);
        f.a.impl[0] = g.a[0]; f.b.impl[0] = g.b[0]; f.c.impl[0] = g.c[0];
    }
    o_disc(E.impl, f.a.impl, f.b.impl, f.c.impl);
    vp_check_mpz_eq(E.impl, D.impl, "reduction keeps the discriminant");
    vp_check_mpz_eq(f.a.impl, o.a, "a of the reduced equivalent form");
    vp_check_mpz_eq(f.c.impl, o.c, "c of the reduced equivalent form");
    if (which == 1) vp_check(vp_or(mpz_cmp(f.b.impl, o.b) == 0, vp_and(mpz_cmpabs(f.b.impl, o.b) == 0, mpz_cmpabs(f.b.impl, f.a.impl) == 0)), "b of the reduced equivalent form, up to sign when |b| = a");
    else { vp_check_mpz_eq(f.b.impl, o.b, "b of the reduced equivalent form"); vp_check(f.is_reduced(), "a reduced form is recognised as reduced"); }
    vp_reach("ok");
}
