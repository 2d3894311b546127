// Square-and-multiply over an abstract cyclic group: a form stands for the power
// of x given by its a coefficient; c = 1 marks a reduced form.
// VP_STUB: ^nudupl_form\( -> stub_nudupl
// VP_STUB: ^nucomp_form\( -> stub_nucomp
// VP_STUB: ^PulmarkReducer::reduce\( -> stub_reduce
// VP_STUB: ^form::identity\( -> stub_identity
// VP_STUB: ^__gmpz_powm_ui$ -> stub_powm_ui
// VP_STUB: ^__gmpz_powm$ -> stub_powm
#include "vp.h"
#include "verifier.h"
#include <new>
static mpz_srcptr g_D, g_L; static int g_bad;
static int chk(const integer& D, const integer& L) { if (mpz_cmp(D.impl, g_D) != 0 || mpz_cmp(L.impl, g_L) != 0) g_bad = 1; return 0; }
extern "C" void stub_nudupl(form& a, const form& b, const integer& D, const integer& L) { chk(D, L); mpz_mul_2exp(a.a.impl, b.a.impl, 1); mpz_set_ui(a.c.impl, 0); }
extern "C" void stub_nucomp(form& a, const form& b, const form& c, const integer& D, const integer& L) { chk(D, L); mpz_add(a.a.impl, b.a.impl, c.a.impl); mpz_set_ui(a.c.impl, 0); }
extern "C" void stub_reduce(PulmarkReducer* r, form& f) { mpz_set_ui(f.c.impl, 1); }
extern "C" void stub_identity(form* out, const integer& D) { new (out) form(); if (mpz_cmp(D.impl, g_D) != 0) g_bad = 1; mpz_set_ui(out->a.impl, 0); mpz_set_ui(out->c.impl, 1); }
static mpz_t p_b, p_e, p_m; static int p_calls;
static void powmrec(mpz_ptr r) { p_calls++; mpz_set_ui(r, 12345); }
extern "C" void stub_powm_ui(mpz_ptr r, mpz_srcptr b, unsigned long e, mpz_srcptr m) { mpz_set(p_b, b); mpz_set_ui(p_e, e); mpz_set(p_m, m); powmrec(r); }
extern "C" void stub_powm(mpz_ptr r, mpz_srcptr b, mpz_srcptr e, mpz_srcptr m) { mpz_set(p_b, b); mpz_set(p_e, e); mpz_set(p_m, m); powmrec(r); }
extern "C" void vp_main() {
    if (vp_param(0) == 1) {                 // modular power
        mpz_inits(p_b, p_e, p_m, NULL);
        uint64_t e = vp_u64("e"), base = vp_param(1) ? vp_u64("base") : 2; integer B; vp_mpz(B.impl, "B", 264);
        integer B0; mpz_set(B0.impl, B.impl);
        bool thrown = false; integer r;
        try { r = FastPow(base, e, B); } catch (const std::runtime_error&) { thrown = true; }
        int zero = mpz_sgn(B0.impl) == 0;
        if (thrown) { vp_reach("refused"); vp_check(zero, "only a zero modulus is refused"); }
        else {
            vp_reach("power");
            vp_check(!zero, "a zero modulus is refused");
            integer eb, ee; mpz_set_ui(eb.impl, base); mpz_set_ui(ee.impl, e);
            vp_check(p_calls == 1 && mpz_cmp_ui(r.impl, 12345) == 0, "the result is that of the modular power");
            vp_check(vp_and(mpz_cmp(p_b, eb.impl) == 0, vp_and(mpz_cmp(p_e, ee.impl) == 0, mpz_cmp(p_m, B0.impl) == 0)), "base, exponent and modulus reach the modular power unchanged");
        }
        vp_check(mpz_cmp(B.impl, B0.impl) == 0, "the modulus is left alone");
        return;
    }
    // exponent = hi * 2^sh2 + mid * 2^sh1 + lo with the three fields symbolic
    uint64_t w = vp_param(1), sh1 = vp_param(2), sh2 = vp_param(3), fill = vp_param(4);
    integer D, L(17), e, t;
    mpz_set_si(D.impl, -7); mpz_mul_2exp(D.impl, D.impl, vp_param(5)); mpz_add_ui(D.impl, D.impl, 0);
    g_D = D.impl; g_L = L.impl;
    uint64_t lo = vp_bits("lo", w), mid = sh1 ? vp_bits("mid", w) : 0, hi = sh2 ? vp_bits("hi", w) : 0;
    mpz_set_ui(e.impl, vp_pick(lo, 4096));
    if (sh1) { mpz_set_ui(t.impl, vp_pick(mid, 4096)); mpz_mul_2exp(t.impl, t.impl, sh1); mpz_add(e.impl, e.impl, t.impl);
        if (fill) { mpz_set_ui(t.impl, 1); mpz_mul_2exp(t.impl, t.impl, sh1 - w); mpz_sub_ui(t.impl, t.impl, 1); mpz_mul_2exp(t.impl, t.impl, w); mpz_add(e.impl, e.impl, t.impl); } }
    if (sh2) { mpz_set_ui(t.impl, vp_pick(hi, 4096)); mpz_mul_2exp(t.impl, t.impl, sh2); mpz_add(e.impl, e.impl, t.impl); }
    form x; mpz_set_ui(x.a.impl, vp_param(6)); mpz_set_ui(x.c.impl, vp_bits("xr", 1));   // the element, as a power of a formal generator
    integer e0, x0; mpz_set(e0.impl, e.impl); mpz_set(x0.impl, x.a.impl);
    PulmarkReducer* red = (PulmarkReducer*)vp_opaque(64);
    form f = FastPowFormNucomp(x, D, e, L, *red);
    integer want; mpz_mul(want.impl, x0.impl, e0.impl);
    vp_check(!g_bad, "every step uses the given discriminant and bound");
    vp_check_mpz_eq(f.a.impl, want.impl, "the result is x to exactly the given power");
    vp_check(mpz_cmp_ui(f.c.impl, 1) == 0, "the result is reduced");
    vp_check(vp_and(mpz_cmp(x.a.impl, x0.impl) == 0, mpz_cmp(e.impl, e0.impl) == 0), "arguments are left alone");
    vp_reach("ok");
}
