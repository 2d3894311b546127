// The allocator handed to the big-integer library. The system allocator is replaced by one that
// records every call and returns blocks at every 16-byte position relative to a cache line.
// VP_STUB: ^posix_memalign$ -> stub_memalign
// VP_STUB: ^free$ -> stub_free
#include "vp.h"
#include <gmp.h>
#include <cstring>
#include <cstdint>
#include <algorithm>
#include <cstdlib>
#include "alloc.hpp"
alignas(64) static uint8_t g_pool[4][256]; alignas(64) static uint8_t g_inplace[64]; alignas(64) static uint8_t g_foreign[64];
static int g_n, g_freed[4], g_other; static void* g_ptr[4]; static uint64_t g_size[4]; static void* g_otherp;
extern "C" int stub_memalign(void** out, size_t align, size_t size) {
    vp_check(align == 16, "16-byte alignment is requested");
    if (g_n >= 4) vp_stop();
    uint64_t k = vp_pick(vp_bits("place", 2), 8);
    g_size[g_n] = size; *out = g_ptr[g_n] = g_pool[g_n] + 16 * k; g_n++;
    return 0;
}
extern "C" void stub_free(void* p) {
    for (int i = 0; i < g_n; i++) if (p == g_ptr[i]) { g_freed[i]++; return; }
    g_other++; g_otherp = p;
}
extern "C" void vp_main() {
    uint64_t mode = vp_param(0), lim = vp_param(1);
    if (mode == 0) {
        uint64_t n = vp_bits("size", 62);
        uint8_t* p = (uint8_t*)mp_alloc_func(n);
        vp_check(g_n == 1 && p == (uint8_t*)g_ptr[0] + 8, "the block starts 8 bytes past a 16-byte boundary");
        vp_check(g_size[0] >= n + 8, "the block is large enough"); vp_check(g_size[0] % 16 == 0, "whole alignment units");
        mp_free_func(p, n); vp_check(g_freed[0] == 1 && g_other == 0, "the block is released once at the address it was obtained at");
    } else if (mode == 1) {
        uint64_t o = vp_pick(vp_bits("old", 6), 80), n = vp_bits("new", 62); vp_assume(o <= lim); if (vp_param(2)) { vp_assume(n <= lim); n = vp_pick(n, 80); }
        uint8_t was[64]; uint64_t kind = vp_pick(vp_bits("kind", 2), 8); uint8_t* p;      // own, in-place, foreign
        if (kind == 0) p = (uint8_t*)mp_alloc_func(o); else if (kind == 1) p = g_inplace; else p = g_foreign + (kind == 2 ? 16 : 48);
        if (kind > 1) vp_assume(o <= 16);
        vp_bytes(was, 64, "c"); memcpy(p, was, o);
        if (n < o) n = vp_pick(n, 80);
        int a = g_n;
        uint8_t* q = (uint8_t*)mp_realloc_func(p, o, n);
        vp_check(g_n == a + 1 && q == (uint8_t*)g_ptr[a] + 8 && g_size[a] >= n + 8, "the new block is large enough and aligned");
        uint64_t m = o; if (n < o) m = n;
        int ok = 1; for (uint64_t i = 0; i < m; i++) ok = vp_and(ok, q[i] == was[i]);
        vp_check(ok, "the common prefix is preserved");
        vp_check(g_freed[a] == 0, "the new block stays");
        if (kind == 0) vp_check(g_freed[0] == 1 && g_other == 0, "the old block is released once");
        else if (kind == 1) vp_check(g_other == 0, "an in-place buffer is not released");
        else vp_check(g_other == 1 && g_otherp == p, "a block of the default allocator is released as it is");
        mp_free_func(q, n); vp_check(g_freed[a] == 1, "the new block is released once");
    }
    vp_reach("done");
}
