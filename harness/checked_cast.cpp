// checked_cast: every value of every pair of integral types in use.
#include "vp.h"
#include "checked_cast.h"
#include <stdexcept>
#include <limits>
template <class To, class From> static void one(const char* what) {
    uint64_t raw = vp_u64(what);
    From v = (From)raw;
    __int128 wide = (__int128)v;
    bool fits = wide >= (__int128)std::numeric_limits<To>::min() && wide <= (__int128)std::numeric_limits<To>::max();
    bool thrown = false;
    To r = 0;
    try { r = checked_cast<To>(v); } catch (const std::overflow_error&) { thrown = true; }
    vp_check(thrown == !fits, "checked_cast throws overflow_error exactly when the value does not fit");
    if (!thrown) { vp_check((__int128)r == wide, "checked_cast preserves the value"); vp_reach("ok"); }
    else vp_reach("throw");
}
template <class To> static void row(const char* n) {
    one<To, int8_t>(n); one<To, uint8_t>(n); one<To, int16_t>(n); one<To, uint16_t>(n);
    one<To, int32_t>(n); one<To, uint32_t>(n); one<To, int64_t>(n); one<To, uint64_t>(n);
}
extern "C" void vp_main() {
    switch (vp_param(0)) {
        case 0: row<int8_t>("i8"); break; case 1: row<uint8_t>("u8"); break;
        case 2: row<int16_t>("i16"); break; case 3: row<uint16_t>("u16"); break;
        case 4: row<int32_t>("i32"); break; case 5: row<uint32_t>("u32"); break;
        case 6: row<int64_t>("i64"); break; case 7: row<uint64_t>("u64"); break;
    }
}
