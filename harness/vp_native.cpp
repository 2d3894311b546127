// Native side of the harness API: replays one recorded counterexample.
#include <unistd.h>
#include "vp.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <map>
#include <tuple>
#include <string>
static FILE* f;
static uint64_t params[64]; static int nparams;
static std::map<std::tuple<std::string,uint64_t,uint64_t>,uint64_t> ufs;
static std::map<std::string,uint64_t> ufelse;
static char name_[256]; static char val_[1<<20];
static void open_() {
    if (f) return;
    const char* p = getenv("VP_REPLAY");
    if (!p) { fprintf(stderr, "VP_REPLAY not set\n"); exit(77); }
    f = fopen(p, "r");
    if (!f) { fprintf(stderr, "cannot open %s\n", p); exit(77); }
    char kind[16];
    long pos;
    while (pos = ftell(f), fscanf(f, "%15s", kind) == 1) {
        if (!strcmp(kind, "param")) { unsigned long v; if (fscanf(f, "%lu", &v) != 1) exit(77); params[nparams++] = v; }
        else if (!strcmp(kind, "uf")) { unsigned long x, y, v; if (fscanf(f, "%255s %lu %lu %lu", name_, &x, &y, &v) != 4) exit(77); ufs[std::make_tuple(std::string(name_), (uint64_t)x, (uint64_t)y)] = v; }
        else if (!strcmp(kind, "ufelse")) { unsigned long v; if (fscanf(f, "%255s %lu", name_, &v) != 2) exit(77); ufelse[name_] = v; }
        else if (!strcmp(kind, "#")) { int c; while ((c = fgetc(f)) != '\n' && c != EOF); }
        else { fseek(f, pos, SEEK_SET); break; }
    }
}
static const char* next(const char* name) {
    open_();
    char kind[16];
    if (fscanf(f, "%15s %255s %1048575s", kind, name_, val_) != 3) { fprintf(stderr, "REPLAY-EXHAUSTED at %s\n", name); exit(78); }
    if (strcmp(name_, name)) { fprintf(stderr, "REPLAY-MISMATCH want %s have %s\n", name, name_); exit(78); }
    return val_;
}
extern "C" {
uint64_t vp_u64(const char* n) { return strtoull(next(n), 0, 10); }
uint32_t vp_u32(const char* n) { return vp_u64(n); }
uint16_t vp_u16(const char* n) { return vp_u64(n); }
uint8_t vp_u8(const char* n) { return vp_u64(n); }
uint64_t vp_bits(const char* n, unsigned) { return vp_u64(n); }
void vp_bytes(void* p, size_t n, const char* name) {
    if (!n) return;
    mpz_t z; mpz_init(z); mpz_set_str(z, next(name), 10);
    memset(p, 0, n); size_t c; mpz_export(p, &c, -1, 1, 0, 0, z); mpz_clear(z);
}
void vp_mpz(mpz_ptr z, const char* n, int) { mpz_set_str(z, next(n), 10); }
void vp_mpz_u(mpz_ptr z, const char* n, int) { mpz_set_str(z, next(n), 10); }
uint64_t vp_param(unsigned i) { open_(); return params[i]; }
void vp_assume(int c) { if (!c) { fprintf(stderr, "REPLAY-ASSUME-FAILED\n"); exit(79); } }
void vp_check(int c, const char* m) { if (!c) { fprintf(stderr, "VP-CHECK-FAILED: %s\n", m); _exit(1); } }
void vp_check_mpz_eq(mpz_srcptr a, mpz_srcptr b, const char* m) { vp_check(mpz_cmp(a, b) == 0, m); }
void vp_reach(const char*) {}
void vp_stop(void) { exit(0); }
int vp_and(int a, int b) { return a && b; }
int vp_or(int a, int b) { return a || b; }
int vp_implies(int a, int b) { return !a || b; }
uint64_t vp_pick(uint64_t v, int) { return v; }
uint64_t vp_uf(const char* n, uint64_t x, uint64_t y) {
    // distinct pseudo-random values; the recorded model's values take precedence when present
    auto k = std::make_tuple(std::string(n), x, y);
    auto it = ufs.find(k);
    if (it != ufs.end()) return it->second;
    if (ufelse.count(n)) return ufelse[n];
    uint64_t h = 1469598103934665603ull;
    for (const char* p = n; *p; p++) h = (h ^ *p) * 1099511628211ull;
    h ^= x * 0x9E3779B97F4A7C15ull; h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; h ^= y * 0x94D049BB133111EBull; h ^= h >> 32;
    return ufs[k] = h;
}
void* vp_opaque(uint64_t) { return (void*)0x7e0000000000ull; }
uint64_t vp_offset(const void* p, const void* b) { return (const char*)p - (const char*)b; }
int vp_same_object(const void*, const void*) { return 1; }
int vp_readable(const void*, uint64_t) { return 1; }
void vp_log(const char* m, uint64_t v) { fprintf(stderr, "LOG %s %lu\n", m, (unsigned long)v); }
void vp_log_mpz(const char* m, mpz_srcptr v) { gmp_fprintf(stderr, "LOG %s %Zd\n", m, v); }
int vp_is_sym(void) { return 0; }
void vp_main(void);
}
int main() { vp_main(); fprintf(stderr, "VP-REPLAY-PASSED\n"); return 0; }
