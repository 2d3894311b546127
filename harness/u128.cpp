// The portable 128-bit integer against the compiler's native one.
#include "vp.h"
#include "uint128_t/uint128_t.cpp"
typedef unsigned __int128 N;
static N nat(const uint128_t& v) { return (N)v.upper() << 64 | v.lower(); }
static uint128_t mk(N v) { return uint128_t((uint64_t)(v >> 64), (uint64_t)v); }
static N sym(const char* h, const char* l) { uint64_t a = vp_u64(h), b = vp_u64(l); return (N)a << 64 | b; }
#define EQ(x, y, m) vp_check(nat(x) == (N)(y), m)
extern "C" void vp_main() {
    uint64_t mode = vp_param(0);
    if (mode == 0) {
        N a = sym("ah", "al"), b = sym("bh", "bl"); uint64_t w = vp_u64("w"); uint32_t w32 = vp_u32("w32"); uint8_t w8 = vp_u8("w8");
        const uint128_t A = mk(a), B = mk(b); uint128_t t;
        EQ(A + B, a + b, "+"); EQ(A - B, a - b, "-"); EQ(-A, -a, "unary -"); EQ(+A, a, "unary +"); EQ(~A, ~a, "~");
        EQ(A & B, a & b, "&"); EQ(A | B, a | b, "|"); EQ(A ^ B, a ^ b, "^");
        t = A; EQ(t += B, a + b, "+="); EQ(t, a + b, "+="); t = A; EQ(t -= B, a - b, "-="); EQ(t, a - b, "-="); t = A; EQ(t &= B, a & b, "&="); t = A; EQ(t |= B, a | b, "|="); t = A; EQ(t ^= B, a ^ b, "^=");
        t = A; EQ(t += t, a + a, "+= itself"); t = A; EQ(t -= t, 0, "-= itself");
        t = A; EQ(++t, a + 1, "++"); EQ(t, a + 1, "++"); t = A; EQ(t++, a, "postfix ++"); EQ(t, a + 1, "postfix ++"); t = A; EQ(--t, a - 1, "--"); EQ(t, a - 1, "--"); t = A; EQ(t--, a, "postfix --"); EQ(t, a - 1, "postfix --");
        vp_check((A == B) == (a == b), "=="); vp_check((A != B) == (a != b), "!="); vp_check((A < B) == (a < b), "<"); vp_check((A > B) == (a > b), ">"); vp_check((A <= B) == (a <= b), "<="); vp_check((A >= B) == (a >= b), ">=");
        vp_check((bool)A == (a != 0), "bool"); vp_check(!A == (a == 0), "!"); vp_check((A && B) == (a && b), "&&"); vp_check((A || B) == (a || b), "||");
        vp_check((uint64_t)A == (uint64_t)a && (uint32_t)A == (uint32_t)a && (uint16_t)A == (uint16_t)a && (uint8_t)A == (uint8_t)a, "narrowing");
        vp_check(A.upper() == (uint64_t)(a >> 64) && A.lower() == (uint64_t)a, "halves");
        EQ(uint128_t(w), w, "from uint64"); EQ(uint128_t(w32), w32, "from uint32"); EQ(uint128_t((int64_t)w), (N)(__int128)(int64_t)w, "from int64"); EQ(uint128_t((int32_t)w32), (N)(__int128)(int32_t)w32, "from int32");
        EQ(A + w, a + w, "+ word"); EQ(A - w, a - w, "- word"); EQ(A & w, a & w, "& word"); EQ(A | w, a | w, "| word"); EQ(A ^ w, a ^ w, "^ word"); t = A; t += w; EQ(t, a + w, "+= word"); t = A; t -= w; EQ(t, a - w, "-= word"); t = A; t |= w; EQ(t, a | w, "|= word"); t = A; t ^= w; EQ(t, a ^ w, "^= word"); t = A; t &= w; EQ(t, a & w, "&= word"); t = w; EQ(t, w, "= word");
        vp_check((A == w) == (a == w), "== word"); vp_check((A != w) == (a != w), "!= word"); vp_check((A < w) == (a < w), "< word"); vp_check((A > w) == (a > w), "> word"); vp_check((A <= w) == (a <= w), "<= word"); vp_check((A >= w) == (a >= w), ">= word");
        EQ(w + A, w + a, "word +"); EQ(w - A, w - a, "word -"); EQ(w & A, w & a, "word &"); EQ(w | A, w | a, "word |"); EQ(w ^ A, w ^ a, "word ^"); vp_check((w == A) == (w == a), "word =="); vp_check((w < A) == (w < a), "word <"); vp_check((w > A) == (w > a), "word >"); vp_check((w <= A) == (w <= a), "word <="); vp_check((w >= A) == (w >= a), "word >="); vp_check((w != A) == (w != a), "word !=");
        EQ(w8 + A, w8 + a, "byte +");
        uint128_t c(A), d(std::move(c)); EQ(d, a, "moved"); t = std::move(d); EQ(t, a, "move assigned"); t = t; EQ(t, a, "self assigned");
    } else if (mode == 1) {
        N a = sym("ah", "al"), s = sym("sh", "sl"); const uint128_t A = mk(a), S = mk(s); uint128_t t; uint64_t w = (uint64_t)s;
        EQ(A << S, s < 128 ? a << (unsigned)(s & 127) : 0, "<<"); EQ(A >> S, s < 128 ? a >> (unsigned)(s & 127) : 0, ">>");
        t = A; t <<= S; EQ(t, s < 128 ? a << (unsigned)(s & 127) : 0, "<<="); t = A; t >>= S; EQ(t, s < 128 ? a >> (unsigned)(s & 127) : 0, ">>=");
        EQ(A << w, w < 128 ? a << (w & 127) : 0, "<< word"); EQ(A >> w, w < 128 ? a >> (w & 127) : 0, ">> word");
        uint64_t v = (uint64_t)a; EQ(v << S, s < 128 ? (N)v << (unsigned)(s & 127) : 0, "word <<");
    } else if (mode == 2) {
        N a = sym("ah", "al"), b = sym("bh", "bl"); uint64_t w = vp_u64("w"); const uint128_t A = mk(a), B = mk(b); uint128_t t;
        // a*b through the same 32x32-bit products
        uint64_t x[4] = {(uint64_t)a & 0xffffffff, (uint64_t)a >> 32, (uint64_t)(a >> 64) & 0xffffffff, (uint64_t)(a >> 96)}, y[4] = {(uint64_t)b & 0xffffffff, (uint64_t)b >> 32, (uint64_t)(b >> 64) & 0xffffffff, (uint64_t)(b >> 96)};
        const uint64_t M = 0xffffffff;                 // digit columns of the schoolbook product
        #define PP(i, j) (x[i] * y[j])
        uint64_t c0 = PP(0, 0) & M, c1 = (PP(0, 0) >> 32) + (PP(0, 1) & M) + (PP(1, 0) & M);
        uint64_t c2 = (PP(0, 1) >> 32) + (PP(1, 0) >> 32) + (PP(0, 2) & M) + (PP(1, 1) & M) + (PP(2, 0) & M) + (c1 >> 32);
        uint64_t c3 = (PP(0, 2) >> 32) + (PP(1, 1) >> 32) + (PP(2, 0) >> 32) + (PP(0, 3) & M) + (PP(1, 2) & M) + (PP(2, 1) & M) + (PP(3, 0) & M) + (c2 >> 32);
        N p = (N)(c3 & M) << 96 | (N)(c2 & M) << 64 | (c1 & M) << 32 | c0;
        EQ(A * B, p, "*");
        t = A; t *= B; EQ(t, p, "*="); 
    } else if (mode == 3) {
        uint64_t lb = vp_param(1), qb = vp_param(2);
        N a = sym("ah", "al"), b = sym("bh", "bl"); if (lb < 128) vp_assume(a >> lb == 0); if (qb) { vp_assume(a >> qb < b); vp_assume(a >> (lb - 2) != 0); }
        const uint128_t A = mk(a), B = mk(b);
        if (b == 0) { bool th = false; try { A / B; } catch (const std::domain_error&) { th = true; } vp_check(th, "division by zero is refused"); th = false; try { A % B; } catch (const std::domain_error&) { th = true; } vp_check(th, "division by zero is refused"); vp_reach("zero"); return; }
        uint128_t q = A / B;
        N n = vp_pick((uint64_t)q.lower(), 4096); vp_check(q.upper() == 0, "quotient bound");
        N m = 0; for (int i = 0; i < 13; i++) if (n >> i & 1) m += b << i;          // q*d without overflow: n*b <= a
        vp_check(vp_and(m <= a, a - m < b), "quotient");
        uint128_t r = A % B; EQ(r, a - m, "remainder");
        if (vp_param(3) == 1) { uint128_t t = A; t /= B; EQ(t, n, "/="); t = A; t %= B; EQ(t, a - m, "%="); }
    } else {
        N a = sym("ah", "al"); const uint128_t A = mk(a);
        unsigned n = A.bits(); vp_check(n <= 128 && (n == 0 ? a == 0 : a >> (n - 1) == 1), "bit length");
        std::vector<uint8_t> v; A.export_bits(v); vp_check(v.size() == 16, "16 bytes"); int ok = 1; for (int i = 0; i < 16; i++) ok = vp_and(ok, v[i] == (uint8_t)(a >> (120 - 8 * i))); vp_check(ok, "big-endian bytes");
    }
    vp_reach("done");
}
