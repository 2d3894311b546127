// Bit counting and extraction helpers.
// VP_FLAGS: -fno-access-control
// VP_STUB: ^has_lzcnt_hard\( -> stub_has
#include "vp.h"
#include <assert.h>
#include <iostream>
#include <algorithm>
typedef uint64_t uint64;
using std::ostream;
#include "refcode/lzcnt.c"
#include "bit_manipulation.h"
#include "xgcd_partial.c"
extern "C" int stub_has() { return 0; }
static unsigned lz(uint64_t x, unsigned n) { unsigned r = 0; for (int i = n - 1; i >= 0; i--) { if (x >> i & 1) break; r++; } return r; }
extern "C" void vp_main() {
    uint64_t mode = vp_param(0);
    if (mode == 0) {
        uint32_t x = vp_u32("x"); unsigned want = lz(x, 32);
        vp_check(lzcnt32_generic(x) == want, "32-bit generic"); vp_check(lzcnt32_gcc_builtin(x) == want, "32-bit builtin"); vp_check(lzcnt32_soft(x) == want, "32-bit software"); vp_check(lzcnt32(x) == want, "32-bit dispatch");
    } else if (mode == 1) {
        uint64_t x = vp_u64("x"); unsigned want = lz(x, 64);
        vp_check(lzcnt64_generic(x) == want, "64-bit generic"); vp_check(lzcnt64_gcc_builtin(x) == want, "64-bit builtin"); vp_check(lzcnt64_soft(x) == want, "64-bit software"); vp_check(lzcnt64(x) == want, "64-bit dispatch");
    } else if (mode == 2) {
        uint64_t t = vp_u64("t"), b = vp_u64("bits"); int start = vp_bits("start", 6), size = vp_bits("size", 6); vp_assume(start + size <= 64);
        uint64_t m = 0; for (int i = 0; i < 64; i++) if (vp_and(i >= start, i < start + size)) m |= (uint64_t)1 << i;
        vp_check(extract_bits(t, start, size) == (t & m) >> start, "extract");
        vp_check(bit_sequence(start, size) == m, "bit sequence");
        vp_assume(b < (uint64_t)1 << size);
        uint64_t r = insert_bits(t, b, start, size);
        vp_check((r & ~m) == (t & ~m) && (r & m) >> start == b, "insert"); vp_check(extract_bits(r, start, size) == b, "extract of insert");
    } else {
        // big integer helpers
        mpz_t x, y; mpz_init(x); mpz_init(y); vp_mpz_u(x, "x", vp_param(1));
        vp_check((size_t)chiavdf_mpz_bitlen_nonneg(x) == mpz_sizeinbase(x, 2), "bit length");
        uint64_t s = vp_pick(vp_bits("shift", 9), 512);
        mpz_tdiv_q_2exp(y, x, s);
        vp_check((uint64_t)chiavdf_mpz_extract_uword_from_shift_nonneg(x, s) == mpz_get_ui(y), "word after a shift");
    }
    vp_reach("done");
}
