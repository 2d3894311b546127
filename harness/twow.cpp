// Proof assembly of the one- and two-segment modes. A form is identified by the iteration it
// stands for (its a coefficient); challenges and proofs are numbered in order of computation.
// VP_FLAGS: -DFAST_MACHINE=1 -DCHIA_DISABLE_ASM -fno-access-control
// VP_STUB: ^TwoWesolowskiCallback::GetFormCopy\( -> stub_getform
// VP_STUB: ^Prover::GenerateProof\( -> stub_generate
// VP_STUB: ^SerializeForm\( -> stub_serialize
// VP_STUB: ^GetB\( -> stub_getb
// VP_STUB: ^repeated_square_original\( -> stub_square
// VP_STUB: ^ApproximateParameters\(unsigned long, unsigned int&, unsigned int&\) -> stub_params
// VP_STUB: ^root\( -> stub_root
// VP_STUB: ^Proof::hex -> stub_hex
// VP_STUB: ^vdf_original::~?vdf_original\( -> stub_nop
// VP_STUB: ^std::thread::_M_start_thread\( -> stub_start
// VP_STUB: ^std::thread::join\( -> stub_join
// VP_STUB: ^std::thread::_State::~_State\( -> stub_statedtor
// VP_STUB: ^void std::this_thread::sleep_for< -> stub_sleep
#include "vp.h"
#include "vdf.h"
#include <new>
int gcd_base_bits = 50, gcd_128_max_iter = 3;
static uint64_t g_iters, g_stopmode, g_steps; static std::atomic<bool>* g_stop; static WesolowskiCallback* g_w; static bool g_stopped;
static TwoWesolowskiCallback* g_two; static integer* g_D;
// a form is a token; g_val gives the iteration it stands for
static uint64_t g_val[32]; static int g_nv = 1;
static uint64_t tok(const form& f) { return mpz_get_ui(f.a.impl); }
static uint64_t tag(const form& f) { return g_val[tok(f)]; }
static void settag(form& f, uint64_t t) { if (g_nv >= 32) vp_stop(); g_val[g_nv] = t; mpz_set_ui(f.a.impl, g_nv++); }
// what was proved and hashed, in order
static int g_np, g_nb; static uint64_t g_ps[8], g_pl[8], g_px[8], g_py[8], g_bx[8], g_by[8];
static void ask_stop() { if (!g_stopped && g_stopmode && vp_pick(vp_bits("stop", 1), 4)) { g_stopped = true; g_stop->store(true); } }
extern "C" void stub_nop(void*) {}
extern "C" void stub_params(uint64_t T, uint32_t& l, uint32_t& k) { l = 1; k = 10; }
extern "C" void stub_statedtor(void*) {}
struct VpState { virtual ~VpState(); virtual void _M_run(); };
extern "C" void stub_start(std::thread* t, VpState** st, void (*f)()) { (*st)->_M_run(); *(uint64_t*)t = 1; }
extern "C" void stub_join(std::thread* t) { *(uint64_t*)t = 0; }
extern "C" void stub_root(integer* o, const integer&, int) { new (o) integer(); }
extern "C" void stub_hex(std::string* o, Proof*) { new (o) std::string(); }
extern "C" void stub_sleep(const void* d) {                 // the squaring thread advances or a stop is requested
    vp_check(g_steps < 12 && !(g_stopped && g_steps > 6), "the computation ends once it is stopped or the iterations are there");
    if (g_steps >= 12) vp_stop();
    g_steps++;
    ask_stop();
    if (!g_stopped) g_w->iterations.store(g_steps == 1 ? 0 : g_iters);
}
static bool recorded(uint64_t p) { return vp_and(p % 10 == 0, vp_implies(p >= (uint64_t)kSwitchIters, p % 100 == 0)); }
extern "C" void stub_getform(form* o, TwoWesolowskiCallback* w, uint64_t power) {
    new (o) form();
    vp_check((int64_t)power <= w->iterations.load(), "a form is read only after it was computed");
    vp_check(recorded(power), "only recorded iterations are read");
    settag(*o, power);
}
extern "C" void stub_generate(Prover* p) {
    vp_check(mpz_cmp(p->D.impl, g_D->impl) == 0, "the given discriminant");
    int n = g_np++; if (n >= 8) vp_stop();
    g_ps[n] = p->segm.start; g_pl[n] = p->segm.length; g_px[n] = tag(p->segm.x); g_py[n] = tag(p->segm.y);
    vp_check(p->num_iterations == p->segm.length, "the prover covers its segment");
    // any intermediate the generator reads
    uint64_t i = vp_bits("i", 27), kl = vp_pick((uint64_t)p->k * p->l, 6);
    if (g_two && vp_param(4)) { p->l = vp_pick(p->l, 6); p->k = kl / p->l; }
    if (g_two) {                                         // every intermediate start + i*k*l is a recorded iteration
        uint64_t st = p->segm.start;
        vp_check(vp_and(kl % 10 == 0, st % 10 == 0), "only recorded iterations are read");
        if (kl % 100) vp_check(st + p->segm.length <= (uint64_t)kSwitchIters, "only recorded iterations are read"); else vp_check(st % 100 == 0, "only recorded iterations are read");
    }
    if (g_two && vp_param(4) && i * kl < p->segm.length) { form f = p->GetForm(i); vp_check(tag(f) == p->segm.start + i * kl, "intermediate i is the form at i*k*l"); }
    ask_stop();
    if (!p->PerformExtraStep()) return;                  // a stopped proof does not finish
    settag(p->proof, 1000 + n);
    p->OnFinish();
}
extern "C" void stub_serialize(std::vector<uint8_t>* o, form& f, int d_bits) {
    new (o) std::vector<uint8_t>(100);
    vp_check(d_bits == g_D->num_bits(), "discriminant size");
    (*o)[0] = tok(f);
}
extern "C" void stub_getb(integer* o, const integer& D, form& x, form& y) {
    new (o) integer(); int n = g_nb++; if (n >= 8) vp_stop();
    g_bx[n] = tag(x); g_by[n] = tag(y); mpz_set_ui(o->impl, 1); mpz_mul_2exp(o->impl, o->impl, 263); mpz_add_ui(o->impl, o->impl, n);
}
extern "C" void stub_square(vdf_original& v, form& f, const integer& D, const integer& L, uint64 base, uint64 n, INUDUPLListener* l) { settag(f, tag(f) + n); }
static uint64_t le(const uint8_t* p) { return g_val[p[0] & 31]; }
static bool be_is(const uint8_t* p, uint64_t v) { int r = 1; for (int i = 0; i < 8; i++) r = vp_and(r, p[i] == (uint8_t)(v >> (56 - 8 * i))); return r; }
// follow the verifier: earlier segments from the end of the blob, then y and the last proof
static void parse(const Proof& pr, uint64_t iters, int segs) {
    vp_check(pr.y.size() == 100 && pr.proof.size() == 100 + 141 * (uint64_t)segs, "proof size");
    if (pr.y.size() != 100 || pr.proof.size() != 100 + 141 * (uint64_t)segs) vp_stop();
    vp_check(le(pr.y.data()) == iters, "y is the form after exactly the requested iterations");
    uint64_t at = 0;
    for (int s = 0; s <= segs; s++) {
        const uint8_t* w = s < segs ? pr.proof.data() + 100 + 141 * (segs - 1 - s) + 41 : pr.proof.data();
        uint64_t n = vp_pick(le(w) - 1000, 8); vp_check(n < (uint64_t)g_np, "a finished proof"); if (n >= (uint64_t)g_np) vp_stop();
        uint64_t len = g_pl[n];
        if (s < segs) {
            const uint8_t* p = w - 41;
            vp_check(be_is(p, len), "8-byte big-endian segment length");
            vp_check(p[8] == 0x80, "33-byte challenge");
            uint64_t b = p[40]; vp_check(b < (uint64_t)g_nb, "challenge"); if (b >= (uint64_t)g_nb) vp_stop();
            vp_check(vp_and(g_bx[b] == at, g_by[b] == at + len), "the challenge is the hash of the segment's endpoints");
        } else vp_check(len == iters - at, "the last segment is what remains");
        vp_check(vp_and(vp_and(g_ps[n] == at, g_pl[n] == len), vp_and(g_px[n] == at, g_py[n] == at + len)), "each proof belongs to its segment and segments chain");
        at += len;
    }
    vp_check(at == iters, "segment lengths sum to the request");
}
extern "C" void vp_main() {
    g_stopmode = vp_param(1);
    std::atomic<bool> stop(false); g_stop = &stop;
    integer D; mpz_set_si(D.impl, -1000003); g_D = &D;
    form x; settag(x, 0);
    if (vp_param(0) == 0) {
        uint64_t r = vp_bits("r", 10); vp_assume(r < 900); if (vp_param(4)) vp_assume(r == vp_param(4) - 1); r = vp_pick(r, 1000);        // every count, split by its residue modulo 900
        uint64_t iters = 900 * vp_bits("q", 20) + r; vp_assume(iters >= vp_param(2)); vp_assume(iters <= vp_param(3)); g_iters = iters;
        TwoWesolowskiCallback* w = (TwoWesolowskiCallback*)calloc(1, sizeof(TwoWesolowskiCallback)); g_w = g_two = w; w->iterations.store(0);
        Proof p = ProveTwoWeso(D, x, iters, 0, w, 0, stop);
        if (g_stopped) { vp_check(p.y.empty() && p.proof.empty(), "a stopped computation gives no proof"); vp_reach("stopped"); return; }
        vp_check(p.witness_type == 2, "witness type"); parse(p, iters, 2);
    } else {
        uint64_t iters = vp_bits("iters", 40); g_iters = iters; vp_assume(iters >= 1);
        OneWesolowskiCallback* w = (OneWesolowskiCallback*)calloc(1, sizeof(OneWesolowskiCallback)); g_w = w; w->iterations.store(0);
        new (&w->result) form(); settag(w->result, iters); w->wanted_iter = iters; new (&w->forms) std::unique_ptr<form[]>(new form[2]);
        Proof p = ProveOneWesolowski(iters, D, x, w, stop);
        if (g_stopped) { { vp_check(p.proof.empty(), "a stopped computation gives no proof"); vp_reach("stopped"); return; } }
        vp_check(p.witness_type == 0, "witness type"); parse(p, iters, 0);
    }
    vp_reach("ok");
}
