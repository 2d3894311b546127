#include "vp.h"
#include "vdf.h"
#include <new>
int gcd_base_bits = 50, gcd_128_max_iter = 3;
static uint64_t g_expect, g_full, g_sym, g_calls, g_large, g_sub, g_base, g_arb;     // squarings of a form: g_base + its a coefficient
static std::atomic<bool>* g_stop; static WesolowskiCallback* g_w;
static uint64_t get(mpz_srcptr a) { return g_base + mpz_get_ui(a); }
// iterations reported in the middle of the count never exceed the squarings performed
static void published() { static uint64_t n; if (n++ % 3333) return; vp_check((uint64_t)g_w->iterations.load() <= g_expect, "the published count never exceeds the squarings performed"); }
static void next_call() {                              // the environment may ask to stop after any batch
    g_calls++;
    if (g_calls > g_full && g_arb == g_sym && vp_bits("stop", 1)) { g_stop->store(true); }
    if (g_calls >= g_full + g_sym) g_stop->store(true);
}
extern "C" void stub_vdfo(vdf_original* v) {}
extern "C" vdf_original::form* stub_square(vdf_original* v, vdf_original::form& f) {
    static vdf_original::form r; static bool init; if (!init) { mpz_inits(r.a, r.b, r.c, NULL); init = true; }
    published(); mpz_add_ui(r.a, f.a, 1); return &r;
}
extern "C" void stub_wctor(WesolowskiCallback* w, integer& D) {
    new (&w->iterations) std::atomic<int64_t>(0); w->vdfo = (vdf_original*)vp_opaque(4096);
}
extern "C" void stub_nudupl(form& a, const form& b, const integer& D, const integer& L) { published(); mpz_add_ui(a.a.impl, b.a.impl, 1); }
extern "C" void stub_reduce(WesolowskiCallback* w, form& f) {}
struct TestOne : WesolowskiCallback {
    TestOne(integer& D) : WesolowskiCallback(D) {}
    void OnIteration(int type, void* data, uint64_t i) override;
};
static void on_iter(int type, void* data, uint64_t i) {
    vp_check(i == g_expect, "iterations are reported in order, once each");
    if (type == NL_FORM) { vp_check(get(((vdf_original::form*)data)->a) == i + 1, "the reported form has had one squaring per counted iteration"); }
    g_expect = i + 1;
#ifdef CHIA_DISABLE_ASM
    if (i % 10000 == 9999) next_call();
#endif
}
void TestOne::OnIteration(int type, void* data, uint64_t i) { on_iter(type, data, i); }
extern "C" void stub_twctor(TwoWesolowskiCallback* w, integer& D, const form& f) { stub_wctor(w, D); new (&w->transition_state) std::atomic<uint64_t>(0); }
extern "C" void stub_factor(FastAlgorithmCallback* w, int segments, integer& D, form* f, bool mp) { stub_wctor(w, D); new (&w->y_ret) form(); }
extern "C" void stub_increase(TwoWesolowskiCallback* w, uint64_t n) {
    vp_check(n == g_expect && n % 100 == 0 && n >= kSwitchIters && n < kSwitchIters + 10100, "the stride changes at a recorded iteration, at the first batch end past the threshold");
    g_large++;
    w->transition_state.store((n + 1) << 32 | n / 10);
}
struct TestTwo : TwoWesolowskiCallback {
    TestTwo(integer& D, const form& f) : TwoWesolowskiCallback(D, f) {}
    void OnIteration(int type, void* data, uint64_t i) { on_iter(type, data, i); }
};
struct TestFast : FastAlgorithmCallback {
    TestFast(integer& D, form f) : FastAlgorithmCallback(1, D, f, true) {}
    void OnIteration(int type, void* data, uint64_t i) { on_iter(type, data, i); }
};
extern "C" void stub_submit(FastStorage* s, form* y, uint64_t it) {
    vp_check(it == g_sub && it <= g_expect, "checkpoints are submitted in order, once each, when reached");
    g_sub = it + (1 << 15);
}
#ifndef CHIA_DISABLE_ASM
extern "C" void stub_ss(square_state_type* s) {}
extern "C" uint64 stub_fast(square_state_type& st, form& f, const integer& D, const integer& L, uint64 base, uint64 n, INUDUPLListener* l) {
    published();
    vp_check(base == g_expect && get(f.a.impl) == base, "a batch starts at the first iteration not yet done");
    vp_check(n >= 1 && n <= 10000 && l == g_w, "batch bounds");
    uint64 r = g_calls < g_full || g_calls >= g_full + g_arb ? n : vp_u64("outcome");
    vp_assume(vp_or(r <= n, r == ~uint64(0)));
    if (r == ~uint64(0)) { next_call(); return r; }                    // corruption: form untouched; what the listener saw of the batch is reported again
    g_expect += r;
    g_base += r;
    next_call();
    return r;
}
#endif
extern "C" void vp_main() {
    uint64_t mode = vp_param(0); g_full = vp_param(1); g_sym = vp_param(2); g_arb = vp_param(4) ? vp_param(4) : g_sym;
    std::atomic<bool> stop(false); g_stop = &stop;
    integer D, L; mpz_set_si(D.impl, -7); 
    form f; mpz_set_ui(f.a.impl, 0);
    uint64_t want = vp_param(3) ? vp_u64("iterations") : 0;
    fast_algorithm = mode == 2 || mode == 3; two_weso = mode == 1; new_event = false;
    WesolowskiCallback* w;
    if (mode == 1) w = new TestTwo(D, f); else if (mode >= 2) w = new TestFast(D, f); else w = new TestOne(D);
    g_w = w;
    FastStorage* fs = mode == 2 ? (FastStorage*)vp_opaque(4096) : NULL;
    repeated_square(want, f, D, L, w, fs, stop);
    uint64_t done = w->iterations.load();
    vp_check(done <= g_expect, "the published count never exceeds the squarings performed");
    uint64_t lim = kMaxItersAllowed - 500000;
    if (want != 0 && g_expect > want) { vp_check(done == g_expect, "the final count is published"); vp_check(g_expect <= want + 10000 || g_calls >= g_full, "the driver stops at the first batch end past the requested count"); vp_reach("finished"); }
    else if (!stop) { vp_check(mode == 1 && g_expect >= lim, "it stops only on request, at the requested count or at the maximum"); vp_reach("maximum"); }
    else vp_reach("stopped");
    if (mode == 1) vp_check(g_expect < lim + 50000, "the maximum is not overrun");
    if (mode == 1 && g_expect >= kSwitchIters + 50000) vp_check(g_large == 1, "the stride changes once");
    if (mode == 2 && g_expect >= 32768 + 10000) vp_check(g_sub > 32768, "checkpoints are submitted");
    if (mode == 3) vp_check(g_expect == 0 || new_event, "provers are notified");
}
