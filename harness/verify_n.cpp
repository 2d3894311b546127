// N-Wesolowski verifier over an abstract group: accepts exactly the proofs the
// protocol defines.  Forms are opaque tokens; group operations, hashing to a
// prime and decoding are uninterpreted functions (decided by other properties).
// VP_STUB: ^DeserializeForm\( -> stub_deserialize
// VP_STUB: ^GetB\( -> stub_getb
// VP_STUB: ^__gmpz_powm_ui$ -> stub_powm_ui
// VP_STUB: ^__gmpz_powm$ -> stub_powm
// VP_STUB: ^__gmpz_root$ -> stub_root
// VP_STUB: ^FastPowFormNucomp\( -> stub_fastpowform
// VP_STUB: ^operator\*\(form const&, form const&\) -> stub_formmul2
// VP_STUB: ^form::operator\*\(form const&\) const -> stub_formmul
// VP_STUB: ^SerializeForm\( -> stub_serialize
// VP_STUB: ^CreateDiscriminant\( -> stub_creatediscriminant
#include "vp.h"
#include "verifier.h"
#include "verify_stubs.h"

static const size_t FS = 100, SEG = 8 + 33 + 100;

// the protocol: value of the running element after all segments, or rejection
static bool o_segments(const uint8_t* blob, size_t nseg, size_t base, uint64_t& x, uint64_t& iters, bool check_b) {
    int ok = 1;
    for (size_t k = nseg; k-- > 0;) {
        const uint8_t* s = blob + base + k * SEG;
        uint64_t it = 0;
        for (int i = 0; i < 8; i++) it = (it << 8) | s[i];
        integer B;
        mpz_import(B.impl, 33, 1, 1, 0, 0, s + 8);
        size_t off = base + k * SEG + 41;
        uint64_t pr = tok_at(off);
        ok = vp_and(ok, !bad_at(pr));
        ok = vp_and(ok, mpz_sgn(B.impl) != 0);
        integer r; o_powm(r, it, B);
        uint64_t y = u_mul(u_pow(pr, B.impl), u_pow(x, r.impl));
        if (check_b) {
            integer h; mpz_set_ui(h.impl, vp_uf("getb", x, y)); mpz_setbit(h.impl, 263);
            ok = vp_and(ok, mpz_cmp(h.impl, B.impl) == 0);
        }
        ok = vp_and(ok, it <= iters);
        iters -= it;
        x = y;
    }
    return ok;
}

extern "C" void vp_main() {
    uint64_t func = vp_param(0), len = vp_param(1);
    static uint8_t xs[100];
    uint8_t* blob = new uint8_t[len];
    vp_bytes(blob, len, "blob");
    g_x = xs; g_blob = blob; g_len = len;
    integer D;
    vp_mpz(D.impl, "D", vp_param(2) ? 1100 : 70);
    integer D0; mpz_set(D0.impl, D.impl);
    g_D = D0.impl;
    uint64_t iters = vp_u64("iters"), depth = vp_u64("depth"), dbits = vp_u64("dbits");
    int dok = vp_and(mpz_sgn(D.impl) < 0, mpz_sizeinbase(D.impl, 2) <= 1024);
    bool xbad = bad_at(tok_x());

    if (func == 0 || func == 3) {           // CheckProofOfTimeNWesolowski (3: via the seed)
        bool acc = false, thrown = false;
        try {
            if (func == 0)
                acc = CheckProofOfTimeNWesolowski(D, xs, blob, len, iters, dbits, depth);
            else {
                dbits &= 0xffffffffu;
                std::vector<uint8_t> seed(3, 7);
                acc = CreateDiscriminantAndCheckProofOfTimeNWesolowski(seed, (uint32_t)dbits, xs, blob, len, iters, depth);
            }
        } catch (const std::runtime_error&) { thrown = true; }
        int want = vp_and(dok, vp_and(dbits >= 1, dbits <= 1024));
        if (len >= 200 && (len - 200) % SEG == 0) {
            size_t n = (len - 200) / SEG;
            want = vp_and(want, depth == n);
            want = vp_and(want, !xbad);
            uint64_t x = tok_x(), it = iters;
            want = vp_and(want, o_segments(blob, n, 200, x, it, true));
            uint64_t y = tok_at(0), pr = tok_at(100);
            want = vp_and(want, vp_and(!bad_at(y), !bad_at(pr)));
            integer B, r; mpz_set_ui(B.impl, vp_uf("getb", x, y)); mpz_setbit(B.impl, 263);
            o_powm(r, it, B);
            want = vp_and(want, u_mul(u_pow(pr, B.impl), u_pow(x, r.impl)) == y);
        } else want = 0;
        if (acc) { vp_reach("accept"); vp_check(want, "accepted proof satisfies the protocol"); vp_check(!g_badD, "every operation uses the given discriminant"); }
        else { vp_reach("reject"); vp_check(!want, "a proof satisfying the protocol is accepted"); }
        if (func == 3) vp_check(vp_implies(acc, g_cd_len == (int64_t)dbits), "the discriminant is derived with the given size");
    } else if (func == 1) {                 // ...WithB
        integer B; vp_mpz(B.impl, "B", 300);
        std::pair<bool, std::vector<uint8_t>> res{false, {}};
        try { res = CheckProofOfTimeNWesolowskiWithB(D, B, xs, blob, len, iters, depth); }
        catch (const std::runtime_error&) { res.first = false; }
        int want = dok;
        uint64_t y = 0;
        if (len >= 100 && (len - 100) % SEG == 0) {
            size_t n = (len - 100) / SEG;
            want = vp_and(want, vp_and(depth == n, !xbad));
            uint64_t x = tok_x(), it = iters;
            want = vp_and(want, o_segments(blob, n, 100, x, it, true));
            uint64_t pr = tok_at(0);
            want = vp_and(want, vp_and(!bad_at(pr), mpz_sgn(B.impl) != 0));
            integer r; o_powm(r, it, B);
            y = u_mul(u_pow(pr, B.impl), u_pow(x, r.impl));
            integer h; mpz_set_ui(h.impl, vp_uf("getb", x, y)); mpz_setbit(h.impl, 263);
            want = vp_and(want, mpz_cmp(h.impl, B.impl) == 0);
        } else want = 0;
        if (res.first) {
            vp_reach("accept");
            vp_check(want, "accepted proof satisfies the protocol");
            vp_check(!g_badD, "every operation uses the given discriminant");
            vp_check(res.second.size() == 100, "result has the length of one encoded element");
            uint64_t t = 0; for (int i = 0; i < 8 && i < (int)res.second.size(); i++) t = (t << 8) | res.second[i];
            vp_check(t == y, "the returned output is the element the proof proves");
        } else { vp_reach("reject"); vp_check(!want, "a proof satisfying the protocol is accepted"); }
    } else if (func == 2) {                 // GetBFromProof
        bool ok = true; integer got;
        try { integer g = GetBFromProof(D, xs, blob, len, iters, depth); mpz_set(got.impl, g.impl); }
        catch (const std::runtime_error&) { ok = false; }
        int want = dok;
        integer h;
        if (len >= 200 && (len - 200) % SEG == 0) {
            size_t n = (len - 200) / SEG;
            want = vp_and(want, vp_and(depth == n, !xbad));
            uint64_t x = tok_x(), it = iters;
            want = vp_and(want, o_segments(blob, n, 200, x, it, false));
            uint64_t y = tok_at(0);
            want = vp_and(want, !bad_at(y));
            mpz_set_ui(h.impl, vp_uf("getb", x, y)); mpz_setbit(h.impl, 263);
        } else want = 0;
        if (ok) {
            vp_reach("accept");
            vp_check(want, "a value is returned only for a well formed proof");
            vp_check(!g_badD, "every operation uses the given discriminant");
            vp_check_mpz_eq(got.impl, h.impl, "the returned B is the challenge of the final segment");
        } else { vp_reach("reject"); vp_check(!want, "a well formed proof yields its B"); }
    } else if (func == 4) {                 // absent inputs
        bool acc = false;
        try { acc = CheckProofOfTimeNWesolowski(D, vp_bits("xn", 1) ? nullptr : xs, nullptr, len, iters, dbits, depth); } catch (const std::runtime_error&) {}
        try { acc |= CheckProofOfTimeNWesolowski(D, nullptr, blob, len, iters, dbits, depth); } catch (const std::runtime_error&) {}
        try { acc |= CheckProofOfTimeNWesolowskiWithB(D, D, nullptr, blob, len, iters, depth).first; } catch (const std::runtime_error&) {}
        try { acc |= CheckProofOfTimeNWesolowskiWithB(D, D, xs, nullptr, len, iters, depth).first; } catch (const std::runtime_error&) {}
        try { GetBFromProof(D, nullptr, blob, len, iters, depth); acc = true; } catch (const std::runtime_error&) {}
        try { GetBFromProof(D, xs, nullptr, len, iters, depth); acc = true; } catch (const std::runtime_error&) {}
        vp_check(!acc, "absent input is rejected");
        vp_reach("reject");
    }
    delete[] blob;
}
