// Storage of intermediate forms: every form read or written is recorded by its slot.
// VP_FLAGS: -DFAST_MACHINE=1 -fno-access-control
// VP_STUB: ^WesolowskiCallback::SetForm\( -> stub_setform
// VP_STUB: ^form::operator=\(form const&\) -> stub_assign
// VP_STUB: ^form::operator=\(form&&\) -> stub_assign
// VP_STUB: ^form::form\(form const&\) -> stub_copy
// VP_STUB: ^form::form\(form&&\) -> stub_copy
// VP_STUB: ^ApproximateParameters\(unsigned long, unsigned int&, unsigned int&\) -> stub_params
// VP_STUB: ^root\( -> stub_root
// VP_STUB: ^std::condition_variable::condition_variable\( -> stub_nop
// VP_STUB: ^std::condition_variable::notify_ -> stub_nop
// VP_STUB: ^nudupl_form\( -> stub_nudupl
// VP_STUB: ^PulmarkReducer::~?PulmarkReducer\( -> stub_nop
// VP_STUB: ^PulmarkReducer::reduce\( -> stub_nop2
#include "vp.h"
#include <new>
#include "include.h"
#include "parameters.h"
#include "bit_manipulation.h"
#include "double_utility.h"
#include "integer.h"
#include "alloc.hpp"
#include "vdf_original.h"
#include "vdf_new.h"
#include "picosha2.h"
#include "nucomp.h"
#include "nudupl_listener.h"
#include "asm_main.h"
#include "gcd_base_continued_fractions.h"
#include "gcd_128.h"
#include "asm_types.h"
#include "threading.h"
#include "avx512_integer.h"
#include "vdf_fast.h"
#include <map>
#include <set>
#include <thread>
#include <future>
#include <condition_variable>
#include "proof_common.h"
#include "prover_base.hpp"
#include "util.h"
// "new form[n]" reserves n slots without running n constructors
static uint64_t r_cap[4]; static form* r_base[4]; static int r_n;
struct VpArr { form* operator[](size_t n) const { form* p = (form*)vp_opaque((uint64_t)1 << 40); if (r_n < 4) { r_cap[r_n] = n; r_base[r_n] = vp_is_sym() ? p : (p += r_n * ((uint64_t)1 << 32)); r_n++; } return p; } };
typedef vdf_original VpVo; typedef PulmarkReducer VpPr;
struct VpNew { VpArr form; VpVo* vdf_original() const { return 0; } VpPr* PulmarkReducer() const { return 0; } };
static const VpNew vpnew;
#define new vpnew.
#include "callback.h"
#undef new
#include "provers.h"
#include "fast_storage.h"
bool new_event = false; std::condition_variable new_event_cv; std::mutex new_event_mutex;
int gcd_base_bits = 50, gcd_128_max_iter = 3;

static uint64_t g_k, g_l;
static int g_writes; static void* g_w[64]; static const void* g_read; static uint64_t g_count, g_wcount;
static bool in_region(const void* p) { if (!vp_is_sym()) return (uint64_t)p >= 0x7e0000000000ull && (uint64_t)p < 0x7f0000000000ull; for (int i = 0; i < r_n; i++) if (vp_same_object(p, r_base[i])) return true; return false; }
static void wr(void* p) { if (g_writes < 64) g_w[g_writes] = p; g_writes++; }
extern "C" void stub_nop(void*) {}
extern "C" void stub_nop2(void*, form&) {}
extern "C" void stub_root(integer* o, const integer&, int) { new (o) integer(); }
extern "C" void stub_params(uint64_t T, uint32_t& l, uint32_t& k) { l = g_l; k = g_k; }
extern "C" form* stub_assign(form* d, const form& s) { if (in_region(d)) wr(d); else mpz_set(d->a.impl, s.a.impl); return d; }
extern "C" void stub_copy(form* d, const form& s) { new (&d->a) integer(); new (&d->b) integer(); new (&d->c) integer(); if (in_region(&s)) g_read = &s; else mpz_set(d->a.impl, s.a.impl); }
static int g_mode; static FastAlgorithmCallback* g_fa; static int w_segments() { return g_fa->segments; } static uint64_t g_begin, g_iter;
extern "C" void stub_setform(WesolowskiCallback* w, int type, void* data, form* f, bool reduced) {
    if (g_mode == 3) {        // recomputed intermediates: form number it, bucket by bucket
        uint64_t it = g_begin + mpz_get_ui(((form*)data)->a.impl);
        bool hit = false; for (int b = 0; b < w_segments(); b++) if (f == g_fa->GetForm(it, b)) hit = true;
        vp_check(hit, "a recomputed intermediate goes to the slot of its iteration"); g_writes++;
        return;
    }
    wr(f);
}

extern "C" void stub_nudupl(form& a, const form& b, const integer& D, const integer& L) { mpz_add_ui(a.a.impl, b.a.impl, 1); }
static uint64_t off(const void* p, const form* b) { return vp_offset(p, b); }

static void one() {                                    // one-segment proofs
    g_k = vp_param(3); g_l = vp_param(1);
    uint64_t T = vp_bits("T", 33);
    integer D; form f; std::atomic<bool> stop(false);
    auto* cb = ::new OneWesolowskiCallback(D, f, T);
    vp_check(r_n == 1 && r_base[0] == cb->forms.get(), "one array of forms");
    vp_check(g_writes == 1 && g_w[0] == (void*)r_base[0], "the starting form is recorded at position 0");
    Segment s(0, T, f, f);
    auto* pr = ::new OneWesolowskiProver(s, D, cb->forms.get(), stop);
    vp_check(cb->kl == pr->k * pr->l, "recording and proving use the same stride");
    uint64_t kl = (uint64_t)pr->k * pr->l;
    g_writes = 0;
    if (vp_param(2) == 0) {                            // intermediate j of the proof: iteration j*k*l, 0 < j*k*l < T
        uint64_t j = vp_bits("j", 33); vp_assume(j >= 1); vp_assume(j * kl < T);
        cb->OnIteration(NL_FORM, &f, j * kl - 1);
        vp_check(g_writes == 1, "a form the prover needs is recorded");
        g_read = 0; form x = pr->GetForm(j);
        vp_check(g_read == g_w[0], "the prover reads the slot the iteration was recorded in");
        vp_check(off(g_w[0], r_base[0]) == j * sizeof(form) && j < r_cap[0], "every needed slot exists and is its own");
        vp_reach("read");
    } else {
        uint64_t it = vp_u64("iteration"); vp_assume(it < ((uint64_t)1 << 34));
        cb->OnIteration(NL_FORM, &f, it);
        for (int i = 0; i < g_writes; i++) if (g_w[i] != (void*)&cb->result) vp_check(off(g_w[i], r_base[0]) < r_cap[0] * sizeof(form) && (it + 1) % kl == 0, "nothing is recorded elsewhere");
        bool res = false; for (int i = 0; i < g_writes; i++) if (g_w[i] == (void*)&cb->result) res = true;
        vp_check(res == (it + 1 == T), "the result is the form after exactly the requested iterations");
        if (it + 1 == T) vp_reach("result");
    }
}
static void two() {
    integer D; form f; std::atomic<bool> stop(false);
    auto* cb = ::new TwoWesolowskiCallback(D, f);
    vp_check(g_writes == 1 && g_w[0] == (void*)cb->forms.get(), "the starting form is recorded at position 0");
    bool sw = vp_param(1) == 2, later = vp_param(1) == 1; uint64_t lim = (uint64_t)kMaxItersAllowed - 500000 + 50000, S = ~(uint64_t)0;
    vp_check(!cb->LargeConstants(), "recording starts at the fine stride");
    uint64_t p, q, sh = 0;
    if (sw || later) { S = kSwitchIters + 100 * (sh = vp_param(3) + (vp_param(4) ? vp_pick(vp_bits("S", vp_param(4)), 130) : 0)); }
    int wit = vp_param(2);                               // how p and q are given: 0 any, 1 multiples of 10 below S, 2 multiples of 100 from S on
    auto num = [&](const char* n, int w) { return w == 0 ? vp_bits(n, 30) : w == 1 ? 10 * vp_bits(n, 24) : S + 100 * vp_bits(n, 23); };
    p = num("p", wit % 3); q = num("q", wit / 3);
    if (wit % 3 == 1) vp_assume(p < S);
    if (wit / 3 == 1) vp_assume(q < S);
    if (sw) { cb->IncreaseConstants(S); vp_check(cb->LargeConstants(), "the stride has changed"); }
    vp_assume(p >= 1); vp_assume(p < lim); vp_assume(vp_implies(!sw, p <= kSwitchIters + 10100)); if (later) vp_assume(p <= S);
    g_writes = 0;
    cb->OnIteration(NL_FORM, &f, p - 1);
    bool rec = wit ? !(sw && wit % 3 == 1) || g_writes : p % ((sw && p >= S) ? 100 : 10) == 0;
    // after the change only multiples of 100 are still recorded; everything below it was recorded before
    if (sw && p < S) { vp_check(g_writes <= 1, "at most one slot"); if (g_writes == 0) { vp_reach("past"); return; } }
    else vp_check(g_writes == (rec ? 1 : 0), "exactly the multiples of the stride are recorded");
    if (!rec) { vp_reach("skipped"); return; }
    if (sw && !wit) { vp_reach("recorded"); return; }
    void* wp = g_w[0]; uint64_t o = off(wp, cb->forms.get());
    vp_check(o < cb->forms_capacity * sizeof(form) && o >= sizeof(form), "the slot exists");
    if (later) cb->IncreaseConstants(S);
    g_read = 0; form x = cb->GetFormCopy(p);
    vp_check(g_read == wp, "a form is read from the slot it was recorded in, also after the stride changed");
    // another recorded iteration never shares the slot
    vp_assume(q < lim); vp_assume(vp_implies(!sw && !later, q <= kSwitchIters + 10100)); vp_assume(q != p);
    if (!wit) vp_assume(q % (((sw || later) && q >= S) ? 100 : 10) == 0);
    g_read = 0; form y = cb->GetFormCopy(q);
    vp_check(g_read != wp, "two recorded iterations never share a slot");
    vp_reach("distinct");
    // the prover's reads
    uint64_t len = vp_bits("len", 30), st = vp_bits("start", 30), i = vp_bits("i", 27);
    vp_assume(len <= lim); vp_assume(st <= lim);
    Segment s(st, len, f, f);
    auto* pr = ::new TwoWesolowskiProver(s, D, cb, stop);
    vp_check(pr->k * pr->l == (len < 10000000 ? 10 : 100), "short segments use the fine stride, long ones the coarse one");
    pr->k = vp_pick(pr->k, 4); pr->l = vp_pick(pr->l, 4);
    vp_assume(st + i * (pr->k * pr->l) == p);
    g_read = 0; form z = pr->GetForm(i);
    vp_check(g_read == wp, "the prover reads the slot of its iteration");
    vp_reach("prover");
}
static void fast() {
    int seg = vp_param(1); int b = vp_param(2);
    integer D; form f;
    auto* cb = ::new FastAlgorithmCallback(seg, D, f, false); g_fa = cb;
    form* base = cb->forms.get();
    for (int i = 0; i < seg; i++) { bool hit = false; for (int j = 0; j < g_writes; j++) if (g_w[j] == (void*)cb->GetForm(0, i)) hit = true; vp_check(hit, "the starting form is recorded for every segment size"); }
    uint64_t it = vp_bits("it", 34), it2 = vp_bits("it2", 34), P = (uint64_t)1 << (16 + 2 * b), kl = b == 0 ? 10 : 12 * (P >> 18);
    vp_assume(it >= 1);
    if (vp_param(3) == 0) {                              // what a prover of this segment size reads was recorded there
        uint64_t m = vp_bits("m", 18), i = vp_bits("i", 17); vp_assume(vp_and((m + 1) * P < ((uint64_t)1 << 34), i * kl < P));
        Segment s(m * P, P, f, f);
        alignas(16) static char mem[sizeof(InterruptableProver)];
        auto* pr = ::new (mem) InterruptableProver(s, D, cb);
        vp_check(pr->bucket == b && (uint64_t)pr->k * pr->l == kl, "the prover's stride is the recording stride of its segment size");
        vp_assume(it == m * P + i * kl);
        g_writes = 0; cb->OnIteration(NL_FORM, &f, it - 1);
        g_read = 0; form x = pr->GetForm(i);
        bool hit = false; for (int j = 0; j < g_writes; j++) if ((const void*)g_w[j] == g_read) hit = true;
        vp_check(hit, "the slot a prover reads was written at its iteration");
        vp_reach("read");
    } else if (vp_param(3) == 1) {                        // slots exist, belong to one bucket and are not shared within the window
        form* p = cb->GetForm(it, b); form* q = cb->GetForm(it2, b);
        vp_assume(it % P % kl == 0); vp_assume(it2 % P % kl == 0); vp_assume(it != it2); vp_assume(it / P <= it2 / P); vp_assume(it2 / P - it / P < kWindowSize);
        uint64_t lo = cb->buckets_begin[b], hi = b + 1 < seg ? cb->buckets_begin[b + 1] : cb->forms_capacity;
        vp_check(off(p, base) >= lo * sizeof(form), "a slot lies in the area of its segment size"); vp_check(off(p, base) < hi * sizeof(form), "a slot lies in the area of its segment size ");
        vp_check(hi <= r_cap[0] && base == r_base[0], "the areas lie in the allocated storage");
        vp_check(p != q, "two iterations of the window never share a slot");
        vp_reach("distinct");
    } else {                                              // checkpoints and the writes of one iteration
        g_writes = 0; cb->OnIteration(NL_FORM, &f, it - 1);
        bool cp = it % 65536 == 0;
        int n = g_writes - (cp ? 1 : 0);
        if (cp) { void* c = g_w[g_writes - 1]; vp_check(off(c, cb->checkpoints.get()) == it / 65536 * sizeof(form) && it / 65536 < r_cap[1] && cb->checkpoints.get() == r_base[1], "every 2^16th iteration is a checkpoint in its own slot"); vp_reach("checkpoint"); }
        int want = 0; for (int i = 0; i < seg; i++) { uint64_t Q = (uint64_t)1 << (16 + 2 * i); if (it % Q % (i ? 12 * (Q >> 18) : 10) == 0) want++; }
        vp_check(n == want, "an iteration is recorded once for each segment size that needs it");
    }
}
static void refill() {                                    // the background recomputation of intermediates
    int seg = vp_param(1); uint64_t m = vp_pick(vp_bits("block", 1), 5) ? vp_param(2) : 0;
    integer D; form f;
    auto* cb = ::new FastAlgorithmCallback(seg, D, f, true); g_fa = cb;
    FastStorage* fs = (FastStorage*)calloc(1, sizeof(FastStorage));
    fs->weso = cb; fs->intermediates_stored = (bool*)calloc(1 << 19, 1);
    g_begin = m << 15; g_writes = 0;
    form y; fs->CalculateIntermediatesInner(y, g_begin);
    int want = 0; for (uint64_t it = g_begin; it < g_begin + 32768; it++) for (int i = 0; i < seg; i++) { uint64_t Q = (uint64_t)1 << (16 + 2 * i); if (it % Q % (i ? 12 * (Q >> 18) : 10) == 0) want++; }
    vp_check(g_writes == want, "every intermediate of the half block is recomputed");
    vp_check(fs->intermediates_stored[m], "the half block is marked as stored");
    vp_reach("refilled");
}
static void finished() {                                  // which prefix of blocks is complete, in any order of completion
    FastStorage* fs = (FastStorage*)calloc(1, sizeof(FastStorage)); fs->intermediates_stored = (bool*)calloc(1 << 19, 1);
    bool st[8] = {0}; uint64_t last = 0;
    for (int n = 0; n < 4; n++) {
        uint64_t h = vp_pick(vp_bits("half", 3), 20); st[h] = true; fs->AddIntermediates(h << 15);
        if (n & 1) { uint64_t want = 0; while (want < 4 && st[2 * want] && st[2 * want + 1]) want++; vp_check(fs->GetFinishedSegment() == want << 16, "the finished prefix ends at the first incomplete block"); vp_reach("asked"); }
    }
}
extern "C" void vp_main() { g_mode = vp_param(0); if (g_mode == 0) one(); else if (g_mode == 1) two(); else if (g_mode == 2) fast(); else if (g_mode == 3) refill(); else finished(); }
