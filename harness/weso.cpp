// One Wesolowski proof: the verdict is exactly proof^B * x^(2^T mod B) = y with
// B hashed from the encodings of x then y.
// VP_STUB: ^HashPrime\( -> stub_hashprime
// VP_STUB: ^__gmpz_powm_ui$ -> stub_powm_ui
// VP_STUB: ^__gmpz_powm$ -> stub_powm
// VP_STUB: ^__gmpz_root$ -> stub_root
// VP_STUB: ^FastPowFormNucomp\( -> stub_fastpowform
// VP_STUB: ^operator\*\(form const&, form const&\) -> stub_formmul2
// VP_STUB: ^form::operator\*\(form const&\) const -> stub_formmul
// VP_STUB: ^SerializeForm\( -> stub_serialize
#include "vp.h"
#include "verifier.h"
#include <new>
// a form is three integers; group operations are uninterpreted functions of all three
static integer *g_D0; static int g_badD, g_badhash, g_badpow;
static uint64_t hz(mpz_srcptr z, int n = 5) {
    uint64_t h = mpz_sgn(z) < 0 ? 7 : 5;
    for (int i = 0; i < n; i++) h = vp_uf("limb", h, mpz_getlimbn(z, i));
    return h;
}
static uint64_t hf(const form& f) { return vp_uf("f1", vp_uf("f2", hz(f.a.impl, 1), hz(f.b.impl, 1)), hz(f.c.impl, 1)); }
static void mkf(form& f, uint64_t t) { mpz_set_ui(f.a.impl, vp_uf("ga", t, 0)); mpz_set_ui(f.b.impl, vp_uf("gb", t, 0)); mpz_set_ui(f.c.impl, vp_uf("gc", t, 0)); }
static uint64_t um(uint64_t a, uint64_t b) { return a < b ? vp_uf("mul", a, b) : vp_uf("mul", b, a); }
static uint64_t up(uint64_t a, mpz_srcptr e) { return vp_uf("pow", a, hz(e)); }
extern "C" void stub_serialize(std::vector<unsigned char>* out, form& y, int d_bits) {
    new (out) std::vector<unsigned char>(100);
    uint64_t t = vp_uf("ser", hf(y), 0);
    for (int i = 0; i < 100; i++) (*out)[i] = (unsigned char)(i < 8 ? t >> (8 * i) : i);
    if (d_bits != (int)mpz_sizeinbase(g_D0->impl, 2)) g_badD = 1;
}
static uint64_t u_hash(uint64_t sx, uint64_t sy) { return vp_uf("hash", sx, sy); }
extern "C" void stub_hashprime(integer* out, std::vector<uint8_t>* seed, int length, vector<int>* mask) {
    new (out) integer();
    if (length != 264 || mask->size() != 1 || (*mask)[0] != 263 || seed->size() != 200) { g_badhash = 1; return; }
    uint64_t a = 0, b = 0; uint8_t bad = 0;
    for (int i = 0; i < 100; i++) { 
        if (i < 8) { a |= (uint64_t)(*seed)[i] << (8 * i); b |= (uint64_t)(*seed)[100 + i] << (8 * i); }
        else bad |= ((*seed)[i] ^ i) | ((*seed)[100 + i] ^ i);
    }
    if (bad) g_badhash = 1;
    mpz_set_ui(out->impl, u_hash(a, b)); mpz_setbit(out->impl, 263);
}
extern "C" void stub_powm_ui(mpz_ptr r, mpz_srcptr b, unsigned long e, mpz_srcptr m) { mpz_set_ui(r, vp_uf("powm", vp_uf("powm1", mpz_get_ui(b), e), hz(m))); }
extern "C" void stub_powm(mpz_ptr r, mpz_srcptr b, mpz_srcptr e, mpz_srcptr m) { mpz_set_ui(r, vp_uf("powm", vp_uf("powm1", mpz_get_ui(b), mpz_get_ui(e)), hz(m))); }
extern "C" int stub_root(mpz_ptr r, mpz_srcptr a, unsigned long n) { mpz_set_ui(r, 1); return 0; }
extern "C" void stub_fastpowform(form* out, form* x, integer& D, integer* n, integer& L, PulmarkReducer& red) {
    new (out) form();
    if (mpz_cmp(D.impl, g_D0->impl) != 0) g_badD = 1;
    mkf(*out, up(hf(*x), n->impl));
}
extern "C" void stub_formmul(form* out, const form* a, const form& b) { new (out) form(); mkf(*out, um(hf(*a), hf(b))); }
extern "C" void stub_formmul2(form* out, const form& a, const form& b) { new (out) form(); mkf(*out, um(hf(a), hf(b))); }

static void symf(form& f, const char* n) { mpz_set_ui(f.a.impl, vp_u64(n)); mpz_set_ui(f.b.impl, vp_u64(n)); mpz_set_ui(f.c.impl, vp_u64(n)); }
static int eqf(const form& f, const form& g) { return vp_and(vp_and(mpz_cmp(f.a.impl, g.a.impl) == 0, mpz_cmp(f.b.impl, g.b.impl) == 0), mpz_cmp(f.c.impl, g.c.impl) == 0); }

static form o_prod(const form& p, const integer& B, const form& x, const integer& r) {
    form f1, f2, w; mkf(f1, up(hf(p), B.impl)); mkf(f2, up(hf(x), r.impl)); mkf(w, um(hf(f1), hf(f2))); return w;
}
extern "C" void vp_main() {
    integer D, D0; vp_mpz(D.impl, "D", vp_param(1)); mpz_set(D0.impl, D.impl); g_D0 = &D0;
    vp_assume(mpz_sgn(D.impl) < 0);
    form x, y, pr; symf(x, "x"); symf(y, "y"); symf(pr, "p"); if (vp_param(0) == 0 && vp_bits("neg", 1)) mpz_neg(y.b.impl, y.b.impl);
    uint64_t T = vp_u64("T");
    integer B; mpz_set_ui(B.impl, u_hash(vp_uf("ser", hf(x), 0), vp_uf("ser", hf(y), 0))); mpz_setbit(B.impl, 263);
    if (vp_param(0) == 0) {
        bool v = vp_bits("v0", 1);
        for (int k = 0; k < (int)vp_param(2); k++) {                       // a second call must agree with the first
            if (k == 1) {                                   // with an unrelated proof in between
                bool w = false; form z = form(); mpz_set_ui(z.a.impl, 3); mpz_set_ui(z.b.impl, 1); mpz_set_ui(z.c.impl, 9); VerifyWesolowskiProof(D, z, z, pr, 5, w);
                v = vp_bits("v1", 1);
            }
            VerifyWesolowskiProof(D, x, y, pr, T, v);
            integer r; mpz_set_ui(r.impl, vp_uf("powm", vp_uf("powm1", 2, T), hz(B.impl)));
            form w = o_prod(pr, B, x, r);
            int want = eqf(w, y);
            vp_check(!g_badhash && !g_badD, "challenge and powers are computed from the given discriminant and the two 100-byte encodings");
            if (v) { vp_reach("valid"); vp_check(want, "a valid verdict means the equation holds"); }
            else { vp_reach("invalid"); vp_check(!want, "the equation holding gives a valid verdict"); }
        }
    } else {
        integer g = GetB(D, x, y);
        vp_check(!g_badhash && !g_badD, "the challenge hashes encoding(x) then encoding(y) to 264 bits with the top bit set");
        vp_check_mpz_eq(g.impl, B.impl, "the challenge is the hashed prime");
        // a segment: output and challenge test
        integer Bi; vp_mpz_u(Bi.impl, "B", 264);
        vp_assume(mpz_sgn(Bi.impl) != 0);
        form out;
        int rc = VerifyWesoSegment(D, x, pr, Bi, T, out);
        integer r; mpz_set_ui(r.impl, vp_uf("powm", vp_uf("powm1", 2, T), hz(Bi.impl)));
        form w = o_prod(pr, Bi, x, r);
        vp_check(eqf(w, out), "a segment's output is proof^B * x^(2^T mod B)");
        integer h; mpz_set_ui(h.impl, u_hash(vp_uf("ser", hf(x), 0), vp_uf("ser", hf(w), 0))); mpz_setbit(h.impl, 263);
        int want = mpz_cmp(h.impl, Bi.impl) == 0;
        if (rc == 0) { vp_reach("valid"); vp_check(want, "an accepted segment carries its own challenge"); }
        else { vp_reach("invalid"); vp_check(!want, "a segment carrying its own challenge is accepted"); }
    }
}
