// Serialisation of quadratic forms: layout at full width, algebra at small width.
#include "vp.h"
#include "verifier.h"

static void init(qfb_c& c) { mpz_inits(c.a, c.t, c.g, c.b0, NULL); c.b_sign = false; }

static int fit(mpz_srcptr z, size_t bits) { integer t; mpz_tdiv_q_2exp(t.impl, z, bits); return mpz_sgn(t.impl) == 0; }
// 0: layout round trip; every field arbitrary
static void layout() {
    size_t d_bits = vp_param(1);
    size_t r = (d_bits + 31) / 32 * 32;
    uint64_t gbits = vp_param(2), gb = (gbits + 7) / 8;          // exact size of g
    qfb_c c, d; init(c); init(d);
    vp_mpz_u(c.a, "a", r / 2 + 16);
    vp_mpz(c.t, "t", r / 4 + 16);
    vp_mpz_u(c.g, "g", gbits);
    mpz_setbit(c.g, gbits - 1);
    vp_mpz_u(c.b0, "b0", gb * 8 + 16);
    c.b_sign = vp_bits("sign", 1);
    uint8_t* buf = new uint8_t[100];
    memset(buf, 0xcc, 100);
    int ret = bqfc_serialize_only(buf, &c, d_bits);
    size_t gs = gb - 1;
    int fits = vp_and(vp_and(fit(c.a, (r / 16 - gs) * 8), gb <= r / 32 && fit(c.t, (r / 32 - gs) * 8)), fit(c.b0, gb * 8));
    if (ret == 0) {
        vp_reach("fits");
        vp_check(fits, "a component that does not fit its field is refused");
        size_t total = r / 32 * 3 + 4;
        uint8_t over = 0;
        for (size_t i = total; i < 100; i++) over |= buf[i] ^ 0xcc;
        vp_check(over == 0, "nothing is written past the encoding");
        // the documented layout: flags, size of g, then a, |t|, g, b0 little-endian
        vp_check(buf[0] == (c.b_sign ? 1 : 0) + (mpz_sgn(c.t) < 0 ? 2 : 0), "flag byte holds the two signs");
        vp_check(buf[1] == gs, "second byte holds the size of g minus one");
        mpz_t z, w, u; mpz_inits(z, w, u, NULL);
        mpz_import(z, total - 2, -1, 1, 0, 0, buf + 2);
        size_t o = 0;
        mpz_set(w, c.a); o += r / 16 - gs;
        mpz_abs(u, c.t); mpz_mul_2exp(u, u, o * 8); mpz_ior(w, w, u); o += r / 32 - gs;
        mpz_mul_2exp(u, c.g, o * 8); mpz_ior(w, w, u); o += gb;
        mpz_mul_2exp(u, c.b0, o * 8); mpz_ior(w, w, u); o += gb;
        vp_check(o == total - 2, "the fields fill the encoding");
        vp_check_mpz_eq(z, w, "fields are stored in the documented order, little-endian and zero-padded");
        ret = bqfc_deserialize_only(&d, buf, d_bits);
        vp_check(ret == 0, "the encoding parses");
        vp_check_mpz_eq(c.a, d.a, "a survives"); vp_check_mpz_eq(c.t, d.t, "t survives");
        vp_check_mpz_eq(c.g, d.g, "g survives"); vp_check_mpz_eq(c.b0, d.b0, "b0 survives");
        vp_check(c.b_sign == d.b_sign, "sign survives");
    } else { vp_reach("refused"); vp_check(!fits, "components that fit are encoded"); }
    delete[] buf;
}

static uint64_t gcd64(uint64_t a, uint64_t b) { while (b) { uint64_t t = a % b; a = b; b = t; } return a; }
// every reduced primitive form with a given a, n consecutive odd/even values of b and
// any c below 2^cbits (of exactly cbits bits if exact): b is split on its value, c stays symbolic
static void assume_form(form& f, integer& D, uint64_t av, uint64_t b0, uint64_t n, unsigned cbits, bool exact) {
    uint64_t k = vp_bits("b", 20);
    vp_assume(k < n);
    k = vp_pick(k, 4096);
    int64_t bv = (int64_t)(b0 + k);                           // -a < b <= a, b odd
    vp_assume(vp_and(bv > -(int64_t)av, vp_and(bv <= (int64_t)av, bv & 1)));
    mpz_set_ui(f.a.impl, av); mpz_set_si(f.b.impl, bv);
    vp_mpz_u(f.c.impl, "c", cbits);
    int ok = bv >= 0 ? mpz_cmp_ui(f.c.impl, av) >= 0 : mpz_cmp_ui(f.c.impl, av) > 0;
    if (exact) ok = vp_and(ok, mpz_sizeinbase(f.c.impl, 2) == cbits);
    // the protocol's discriminants are negated primes, so a and b are coprime
    vp_assume(gcd64(av, bv < 0 ? -bv : bv) == 1);
    vp_assume(ok);
    integer t, u;
    mpz_mul(t.impl, f.b.impl, f.b.impl); mpz_mul(u.impl, f.a.impl, f.c.impl); mpz_mul_2exp(u.impl, u.impl, 2);
    mpz_sub(D.impl, t.impl, u.impl);
}
// 1: serialise then deserialise is the identity on reduced forms
static void roundtrip() {
    form f; integer D;
    assume_form(f, D, vp_param(1), vp_param(2), vp_param(3), vp_param(4), vp_param(5));
    size_t d_bits = D.num_bits();
    integer a(f.a), b(f.b), c(f.c);
    std::vector<unsigned char> s = SerializeForm(f, d_bits);
    vp_check(s.size() == 100, "an encoding is 100 bytes");
    bool ok = true;
    form h;
    try { h = DeserializeForm(D, s.data(), s.size(), vp_bits("strict", 1)); } catch (const std::runtime_error&) { ok = false; }
    vp_check(ok, "the encoding of a reduced form is accepted");
    vp_check_mpz_eq(h.a.impl, a.impl, "a survives the round trip");
    vp_check_mpz_eq(h.b.impl, b.impl, "b survives the round trip");
    vp_check_mpz_eq(h.c.impl, c.impl, "c survives the round trip");
    vp_reach("ok");
}
extern "C" void vp_main() {
    switch (vp_param(0)) {
        case 0: layout(); break;
        case 1: roundtrip(); break;
    }
}
