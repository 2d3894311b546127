// Reference arithmetic on binary quadratic forms, and generators that split on
// the small coefficients while the last one stays symbolic.
#pragma once
struct of { mpz_t a, b, c; of() { mpz_inits(a, b, c, NULL); } };
static uint64_t gcd64(uint64_t a, uint64_t b) { while (b) { uint64_t t = a % b; a = b; b = t; } return a; }
static int64_t egcd64(int64_t a, int64_t b, int64_t& x, int64_t& y) {
    int64_t x0 = 1, y0 = 0, x1 = 0, y1 = 1;
    while (b) { int64_t q = a / b, t = a - q * b; a = b; b = t; t = x0 - q * x1; x0 = x1; x1 = t; t = y0 - q * y1; y0 = y1; y1 = t; }
    if (a < 0) { a = -a; x0 = -x0; y0 = -y0; }
    x = x0; y = y0; return a;
}
// b -> the representative of b mod 2a in (-a, a], with the matching c
static void o_normal(of& f) {
    mpz_t r, d, t; mpz_inits(r, d, t, NULL);
    mpz_sub(r, f.a, f.b); mpz_mul_2exp(d, f.a, 1); mpz_fdiv_q(r, r, d);       // b + 2ra in (-a, a]
    mpz_mul(t, r, f.a); mpz_add(t, t, f.b); mpz_mul(t, t, r); mpz_add(f.c, f.c, t);
    mpz_mul(t, r, f.a); mpz_mul_2exp(t, t, 1); mpz_add(f.b, f.b, t);
    mpz_clears(r, d, t, NULL);
}
// the reduced form equivalent to f (positive definite)
static void o_reduce(of& f) {
    o_normal(f);
    while (mpz_cmp(f.a, f.c) > 0) {
        mpz_swap(f.a, f.c); mpz_neg(f.b, f.b);
        o_normal(f);
    }
    if (mpz_cmp(f.a, f.c) == 0 && mpz_sgn(f.b) < 0) mpz_neg(f.b, f.b);
}
static void o_disc(mpz_ptr D, mpz_srcptr a, mpz_srcptr b, mpz_srcptr c) {
    mpz_t t; mpz_init(t);
    mpz_mul(D, b, b); mpz_mul(t, a, c); mpz_mul_2exp(t, t, 2); mpz_sub(D, D, t);
    mpz_clear(t);
}
// Gauss composition (Cohen, A Course in Computational ANT, Def. 5.4.6), not reduced
static void o_compose(of& r, int64_t a1, int64_t b1, int64_t a2, int64_t b2, mpz_srcptr D) {
    int64_t s = (b1 + b2) / 2, x, y, u, v, w;
    int64_t g1 = egcd64(a1, a2, x, y), z;
    int64_t g = egcd64(g1, s, z, w);
    u = x * z; v = y * z;                                   // u a1 + v a2 + w s = g
    int64_t a3 = (a1 / g) * (a2 / g);
    mpz_t t; mpz_init(t);
    mpz_set_si(r.b, b1 * b2); mpz_add(r.b, r.b, D); mpz_tdiv_q_2exp(r.b, r.b, 1);
    mpz_set_si(t, w); mpz_mul(r.b, r.b, t);
    mpz_set_si(t, u * a1 * b2 + v * a2 * b1); mpz_add(r.b, r.b, t);
    mpz_set_si(t, g); mpz_fdiv_q(r.b, r.b, t);
    mpz_set_si(r.a, a3); mpz_set_si(t, 2 * a3); mpz_fdiv_r(r.b, r.b, t);
    mpz_mul(r.c, r.b, r.b); mpz_sub(r.c, r.c, D); mpz_set_si(t, 4 * a3); mpz_fdiv_q(r.c, r.c, t);
    mpz_clear(t);
}
