// Abstract group for the verifier harnesses: a form is a 64-bit token in .a
// (b = c = 0); group operations and hashing are uninterpreted functions.
#pragma once
#include <new>
static uint64_t tok(const form& f) { return mpz_get_ui(f.a.impl); }
static void mk(form& f, uint64_t t) { mpz_set_ui(f.a.impl, t); mpz_set_ui(f.b.impl, 0); mpz_set_ui(f.c.impl, 0); }
static uint64_t hashz(mpz_srcptr z) {
    uint64_t h = mpz_sgn(z) < 0 ? 7 : 5;
    for (int i = 0; i < 5; i++) h = vp_uf("limb", h, mpz_getlimbn(z, i));
    return h;
}
static uint64_t u_mul(uint64_t a, uint64_t b) { return a < b ? vp_uf("mul", a, b) : vp_uf("mul", b, a); }
static uint64_t u_pow(uint64_t a, mpz_srcptr e) { return vp_uf("pow", a, hashz(e)); }

static const uint8_t* g_x; static const uint8_t* g_blob; static size_t g_len;
static mpz_srcptr g_D;
static int g_badD;      // an operation received a different discriminant
// does the encoding at this place fail to decode?
static bool bad_at(uint64_t t) { return (vp_uf("badform", t, 0) & 1) != 0; }
static uint64_t tok_x() { return 1; }
static uint64_t tok_at(size_t off) { return vp_uf("form", off, 0); }

extern "C" void stub_deserialize(form* out, const integer& D, const uint8_t* p, size_t size, bool strict) {
    new (out) form();
    if (mpz_cmp(D.impl, g_D) != 0) g_badD = 1;
    vp_check(size == 100, "decoded encodings are exactly 100 bytes");
    volatile uint8_t sink = 0;
    for (size_t i = 0; i < size; i++) sink ^= p[i];       // the whole encoding must be readable
    uint64_t t;
    if (p == g_x) t = tok_x();
    else t = tok_at((size_t)(p - g_blob));
    if (bad_at(t)) throw std::runtime_error("bad form");
    mk(*out, t);
}
extern "C" void stub_getb(integer* out, const integer& D, form& x, form& y) {
    new (out) integer();
    if (mpz_cmp(D.impl, g_D) != 0) g_badD = 1;
    mpz_set_ui(out->impl, vp_uf("getb", tok(x), tok(y)));
    mpz_setbit(out->impl, 263);
}
extern "C" void stub_powm_ui(mpz_ptr r, mpz_srcptr b, unsigned long e, mpz_srcptr m) {
    mpz_set_ui(r, vp_uf("powm", vp_uf("powm1", mpz_get_ui(b), e), hashz(m)));
}
extern "C" void stub_fastpowform(form* out, form* x, integer& D, integer* n, integer& L, PulmarkReducer& red) {
    new (out) form();
    if (mpz_cmp(D.impl, g_D) != 0) g_badD = 1;
    mk(*out, u_pow(tok(*x), n->impl));
}
extern "C" void stub_formmul(form* out, const form* a, const form& b) {
    new (out) form();
    mk(*out, u_mul(tok(*a), tok(b)));
}
extern "C" void stub_formmul2(form* out, const form& a, const form& b) {
    new (out) form();
    mk(*out, u_mul(tok(a), tok(b)));
}
extern "C" void stub_powm(mpz_ptr r, mpz_srcptr b, mpz_srcptr e, mpz_srcptr m) {
    mpz_set_ui(r, vp_uf("powm", vp_uf("powm1", mpz_get_ui(b), mpz_get_ui(e)), hashz(m)));
}
extern "C" void stub_serialize(std::vector<unsigned char>* out, form& y, int d_bits) {
    new (out) std::vector<unsigned char>(100);
    uint64_t t = tok(y);
    for (int i = 7; i >= 0; i--) { (*out)[i] = (unsigned char)t; t >>= 8; }
    vp_check(d_bits == (int)mpz_sizeinbase(g_D, 2), "encodes with the size of the discriminant");
}
static int64_t g_cd_len;
extern "C" void stub_creatediscriminant(integer* out, std::vector<uint8_t>& seed, int length) {
    new (out) integer();
    g_cd_len = length;
    mpz_set(out->impl, g_D);
}
extern "C" int stub_root(mpz_ptr r, mpz_srcptr a, unsigned long n) { mpz_set_ui(r, 1); return 0; }
// 2^iters mod B as the abstract machine computes it
static void o_powm(integer& r, uint64_t iters, const integer& B) {
    mpz_set_ui(r.impl, vp_uf("powm", vp_uf("powm1", 2, iters), hashz(B.impl)));
}
