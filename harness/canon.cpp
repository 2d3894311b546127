// Canonicality of the byte decoder.  Compression of (a,b) is an arbitrary
// (deterministic) function here; what is decided is the handling of bytes.
// VP_STUB: ^bqfc_compr(\(|$) -> stub_compr
// VP_STUB: ^bqfc_decompr(\(|$) -> stub_decompr
#include "vp.h"
#include "verifier.h"

static size_t g_gbits, g_r;
static mpz_t s_a, s_b;                 // argument of the first compression
static struct qfb_c s_c; static bool s_have;
static int s_cret;
// any value of at most `bits`+5 bits when bits <= 64, else any value with nonzero bits only in the
// lowest 9 and in the highest 5 of the field and the 3 above it
static void val(mpz_ptr z, const char* name, unsigned bits, bool sgn) {
    if (bits <= 64) { if (sgn) vp_mpz(z, name, bits + 5); else vp_mpz_u(z, name, bits + 5); return; }
    mpz_t h; mpz_init(h);
    vp_mpz_u(h, "hi", 8); vp_mpz_u(z, name, 9);
    mpz_mul_2exp(h, h, bits - 5); mpz_add(z, z, h);
    if (sgn && vp_bits("neg", 1)) mpz_neg(z, z);
    mpz_clear(h);
}
extern "C" int stub_compr(struct qfb_c* o, mpz_t a, mpz_t b) {
    if (!s_have) {
        s_have = true;
        mpz_inits(s_a, s_b, s_c.a, s_c.t, s_c.g, s_c.b0, NULL);
        mpz_set(s_a, a); mpz_set(s_b, b);
        val(s_c.a, "ca", (g_r / 16 - (g_gbits + 7) / 8 + 1) * 8, false);
        val(s_c.t, "ct", (g_r / 32 - (g_gbits + 7) / 8 + 1) * 8, true);
        vp_mpz_u(s_c.g, "cg", g_gbits); mpz_setbit(s_c.g, g_gbits - 1);
        vp_mpz_u(s_c.b0, "cb0", (g_gbits + 7) / 8 * 8 + 1);
        s_c.b_sign = vp_bits("csign", 1);
        s_cret = vp_bits("cfail", 1) ? -1 : 0;
    } else vp_check(vp_and(mpz_cmp(a, s_a) == 0, mpz_cmp(b, s_b) == 0), "the decoded form is the one that was re-encoded");
    mpz_set(o->a, s_c.a); mpz_set(o->t, s_c.t); mpz_set(o->g, s_c.g); mpz_set(o->b0, s_c.b0);
    o->b_sign = s_c.b_sign;
    return s_cret;
}
static struct qfb_c d_c; static int d_calls; static bool d_strict;
extern "C" int stub_decompr(mpz_t a, mpz_t b, const mpz_t D, const struct qfb_c* c, bool strict) {
    d_calls++; d_strict = strict;
    mpz_inits(d_c.a, d_c.t, d_c.g, d_c.b0, NULL);
    mpz_set(d_c.a, c->a); mpz_set(d_c.t, c->t); mpz_set(d_c.g, c->g); mpz_set(d_c.b0, c->b0); d_c.b_sign = c->b_sign;
    vp_mpz_u(a, "da", g_r / 2 + 9); vp_mpz(b, "db", g_r / 2 + 9);
    return vp_bits("dfail", 1) ? -1 : 0;
}
static int same(const uint8_t* p, const uint8_t* q) {
    uint8_t d = 0;
    for (int i = 0; i < 100; i++) d |= p[i] ^ q[i];
    return d == 0;
}
extern "C" void vp_main() {
    uint64_t kind = vp_param(0), d_bits = vp_param(1);
    g_gbits = vp_param(2);
    g_r = (d_bits + 31) / 32 * 32;
    mpz_t a, b, D; mpz_inits(a, b, D, NULL);
    bool strict = vp_bits("strict", 1);
    mpz_set_si(D, -7);
    if (kind == 0) {                       // 100 bytes
        uint8_t* s = new uint8_t[100];
        vp_bytes(s, 100, "s");
        if (vp_param(3) < 256) s[1] = vp_param(3);
        int ret = bqfc_deserialize(a, b, D, s, 100, d_bits, strict);
        if (ret == 0) {
            if (s[0] & 12) {
                vp_reach("special");
                vp_check(vp_and(mpz_cmp_ui(b, 1) == 0, mpz_cmp_ui(a, (s[0] & 8) ? 2 : 1) == 0), "a flagged encoding decodes to the generator or the identity");
                vp_check(d_calls == 0, "a flagged encoding is not decompressed");
            } else {
                vp_reach("accept");
                vp_check(d_strict == strict, "strictness reaches the decompression");
                uint8_t* t = new uint8_t[100];
                int r2 = bqfc_serialize(t, a, b, d_bits);
                vp_check(r2 == 0, "an accepted form can be encoded");
                vp_check(same(s, t), "an accepted encoding is the encoding of the form it decodes to, all 100 bytes");
                delete[] t;
            }
        } else { vp_reach("reject"); vp_check((s[0] & 12) == 0, "a flagged encoding is accepted"); }
        delete[] s;
    } else if (kind == 1) {                // any other length, any size claim
        uint64_t n = vp_u64("size"), db = vp_u64("dbits");
        vp_assume(vp_or(n != 100, vp_or(db == 0, db > 1024)));
        uint8_t* s = new uint8_t[0];
        int ret = bqfc_deserialize(a, b, D, s, n, db, strict);
        vp_check(ret != 0, "a wrong length or an unsupported size is rejected without looking at the bytes");
        vp_reach("bad size");
        uint8_t* t = new uint8_t[0];
        uint64_t db2 = vp_u64("dbits2");
        vp_assume(vp_or(db2 == 0, db2 > 1024));
        mpz_set_ui(a, 5);
        vp_check(bqfc_serialize(t, a, b, db2) != 0, "encoding for an unsupported size is refused without writing");
        int cs = bqfc_get_compr_size(db2);
        vp_check(cs == -1, "no encoded length for an unsupported size");
        delete[] s; delete[] t;
    } else {                               // encoded length
        uint64_t db = vp_u64("dbits");
        vp_assume(vp_and(db != 0, db <= 1024));
        vp_check((uint64_t)bqfc_get_compr_size(db) == (db + 31) / 32 * 3 + 4, "encoded length");
        vp_reach("size");
    }
}
