// Proof generation over an abstract group: a form stands for an exponent (its a
// coefficient), the stored intermediates are arbitrary elements e_0, e_1, ...,
// and the base-2^k digits of the quotient are arbitrary.
// VP_STUB: ^nudupl_form\( -> stub_nudupl
// VP_STUB: ^nucomp_form\( -> stub_nucomp
// VP_STUB: ^PulmarkReducer::reduce\( -> stub_reduce
// VP_STUB: ^PulmarkReducer::PulmarkReducer\( -> stub_redctor
// VP_STUB: ^PulmarkReducer::~PulmarkReducer\( -> stub_redctor
// VP_STUB: ^form::identity\( -> stub_identity
// VP_STUB: ^FastPowFormNucomp\( -> stub_fastpow
// VP_STUB: ^GetB\( -> stub_getb
// VP_STUB: ^__gmpz_root$ -> stub_root
// VP_STUB: ^__gmpz_powm_ui$ -> stub_powm_ui
// VP_STUB: ^std::thread::_M_start_thread\( -> stub_start
// VP_STUB: ^std::thread::join\( -> stub_join
// VP_STUB: ^std::thread::_State::~_State\( -> stub_statedtor
#include "vp.h"
#include "verifier.h"
#include <new>
#include <thread>
#include <atomic>
#include "prover_slow.h"
#include "prover_base.hpp"
static mpz_t g_D, g_B; static int g_bad, g_hash;
static uint64_t g_T, g_k, g_mode; static uint64_t g_digit[64]; static bool g_have[64]; static int g_red;
static void chk(const integer& D) { if (mpz_cmp(D.impl, g_D) != 0) g_bad = 1; }
extern "C" void stub_nudupl(form& a, const form& b, const integer& D, const integer& L) { chk(D); mpz_mul_2exp(a.a.impl, b.a.impl, 1); mpz_set_ui(a.c.impl, 0); }
extern "C" void stub_nucomp(form& a, const form& b, const form& c, const integer& D, const integer& L) { chk(D); mpz_add(a.a.impl, b.a.impl, c.a.impl); mpz_set_ui(a.c.impl, 0); }
extern "C" void stub_redctor(PulmarkReducer* r) {}
extern "C" void stub_reduce(PulmarkReducer* r, form& f) { mpz_set_ui(f.c.impl, 1); }
extern "C" void stub_identity(form* out, const integer& D) { new (out) form(); chk(D); mpz_set_ui(out->c.impl, 1); }
extern "C" void stub_fastpow(form* out, form* x, integer& D, integer* n, integer& L, PulmarkReducer& red) {
    new (out) form(); chk(D); mpz_mul(out->a.impl, x->a.impl, n->impl); mpz_set_ui(out->c.impl, 1);
}
static form* g_x; static form* g_y;
extern "C" void stub_getb(integer* out, const integer& D, form& x, form& y) {
    new (out) integer(); chk(D); g_hash++;
    if (mpz_cmp_ui(x.b.impl, 77) != 0 || mpz_cmp_ui(y.b.impl, 78) != 0) g_bad = 1;      // the challenge hashes (x, y)
    mpz_set(out->impl, g_B);
}
extern "C" int stub_root(mpz_ptr r, mpz_srcptr a, unsigned long n) { mpz_set_ui(r, 1); return 0; }
// 2^e mod B: any residue whose leading base-2^k digit is the one chosen for the window
extern "C" void stub_powm_ui(mpz_ptr r, mpz_srcptr b, unsigned long e, mpz_srcptr m) {
    if (mpz_cmp_ui(b, 2) != 0 || mpz_cmp(m, g_B) != 0) g_bad = 1;
    if (g_mode == 2) { vp_check(e == g_T - g_k, "the residue is taken at the window's exponent"); mpz_set(r, g_y->a.impl); return; }
    vp_check(e <= g_T && (g_T - e) % g_k == 0 && e != g_T, "digits are taken at the window boundaries");
    uint64_t i = (g_T - e) / g_k - 1;
    if (i >= 64) vp_stop();
    if (!g_have[i]) { g_have[i] = true; g_digit[i] = vp_pick(vp_bits("digit", g_k), 4096); }
    // smallest r with floor(r * 2^k / B) = digit
    mpz_mul_ui(r, g_B, g_digit[i]); 
    mpz_t t; mpz_init(t); mpz_set_ui(t, 1); mpz_mul_2exp(t, t, g_k); mpz_cdiv_q(r, r, t); mpz_clear(t);
}
struct VpState { virtual ~VpState(); virtual void _M_run(); };
extern "C" void stub_statedtor(void*) {}
extern "C" void stub_start(std::thread* t, VpState** st, void (*f)()) { (*st)->_M_run(); *(uint64_t*)t = 1; }
extern "C" void stub_join(std::thread* t) { *(uint64_t*)t = 0; }

static int g_l; static mpz_t g_e[70]; static int g_fin; static uint64_t g_maxi;
static form mkform(mpz_srcptr e, int tag) { form f; mpz_set(f.a.impl, e); mpz_set_ui(f.b.impl, tag); return f; }
template <class Base> struct TestProver : Base {
    TestProver(Segment s, integer D, uint32_t kk, uint32_t ll) : Base(s, D) { this->k = kk; this->l = ll; }
    form GetForm(uint64_t i) override { if (i > g_maxi) g_maxi = i; if (i >= 70) { vp_check(0, "only existing intermediates are read"); vp_stop(); } return mkform(g_e[i], 0); }
    void start() override { this->GenerateProof(); }
    void stop() override {}
    bool PerformExtraStep() override { return true; }
    void OnFinish() override { g_fin++; this->is_finished = true; }
};
extern "C" void vp_main() {
    g_mode = vp_param(0);
    uint64_t which = g_mode; g_T = vp_param(1); g_k = vp_param(2); g_l = vp_param(3);
    mpz_inits(g_D, g_B, NULL); mpz_set_si(g_D, -1000007);
    mpz_set_ui(g_B, 1); mpz_mul_2exp(g_B, g_B, 263); mpz_add_ui(g_B, g_B, 12345);
    integer D; mpz_set(D.impl, g_D);
    if (g_mode == 2) {                      // one digit, any residue
        uint64_t Tv = vp_u64("T"); g_T = Tv; 
        integer B; vp_mpz_u(B.impl, "B", vp_param(4)); vp_assume(mpz_sgn(B.impl) > 0);
        mpz_set(g_B, B.impl);
        vp_assume(Tv >= g_k);
        form r; vp_mpz_u(r.a.impl, "r", vp_param(4)); vp_assume(mpz_cmp(r.a.impl, B.impl) < 0); g_y = &r;
        uint64_t d;
        if (vp_param(3)) { TestProver<Prover>* p = (TestProver<Prover>*)vp_opaque(4096); d = p->Prover::GetBlock(0, g_k, Tv, B); }
        else d = ::GetBlock(0, g_k, Tv, B);
        // d = floor(2^k r / B)  <=>  d B <= 2^k r < (d + 1) B
        integer n, lo, hi; mpz_mul_2exp(n.impl, r.a.impl, g_k); mpz_set_ui(lo.impl, d); mpz_mul(lo.impl, lo.impl, B.impl); mpz_add(hi.impl, lo.impl, B.impl);
        vp_check(vp_and(mpz_cmp(lo.impl, n.impl) <= 0, mpz_cmp(n.impl, hi.impl) < 0), "the digit is floor(2^k (2^e mod B) / B)");
        vp_reach("ok");
        return;
    }
    uint64_t kl = g_k * g_l, cnt = (g_T + kl - 1) / kl;
    for (uint64_t i = 0; i < 70; i++) mpz_init(g_e[i]);
    for (uint64_t i = 0; i < cnt; i++) vp_mpz_u(g_e[i], "e", vp_param(4));
    form x, y; mpz_set(x.a.impl, g_e[0]); mpz_set_ui(x.b.impl, 77); mpz_set_ui(y.b.impl, 78); mpz_set_ui(y.a.impl, 1);
    form res;
    PulmarkReducer* red = (PulmarkReducer*)vp_opaque(4096);
    if (which == 0) {
        std::vector<form> im;
        for (uint64_t i = 0; i < cnt; i++) im.push_back(mkform(g_e[i], 0));
        res = GenerateWesolowski(y, x, D, *red, im, g_T, g_k, g_l);
    } else {
        Segment s(0, g_T, x, y);
        if (which == 1) { TestProver<Prover> p(s, D, g_k, g_l); p.start(); res = p.GetProof(); vp_check(p.IsFinished(), "the prover reports completion"); }
        else { TestProver<ParallelProver> p(s, D, g_k, g_l); p.start(); res = p.GetProof(); vp_check(p.IsFinished(), "the prover reports completion"); }
        vp_check(g_fin == 1, "completion is reported once");
        vp_check(g_T == 0 || g_maxi < cnt, "only existing intermediates are read");
    }
    integer want, t;
    for (uint64_t m = 0; (m + 1) * g_k <= g_T; m++) {            // windows m = i*l + j with weight 2^(k j) on e_i
        uint64_t i = m / g_l, j = m % g_l;
        vp_check(g_have[m], "every digit of the quotient is computed");
        mpz_mul_ui(t.impl, g_e[i], g_digit[m]); mpz_mul_2exp(t.impl, t.impl, g_k * j); mpz_add(want.impl, want.impl, t.impl);
    }
    vp_check(!g_bad && g_hash >= 1, "challenge of (x, y) and the given discriminant throughout");
    vp_check_mpz_eq(res.a.impl, want.impl, "the proof is the product of the intermediates to the digits' weights");
    vp_check(mpz_cmp_ui(res.c.impl, 1) == 0, "the proof is reduced");
    vp_reach("ok");
}
