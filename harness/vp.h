// Harness API shared by the symbolic executor and the native replay.
#pragma once
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
// std::string's templates are instantiated here so that they are executed, not modelled
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <string>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 1
#endif
#include <gmp.h>
#ifdef __cplusplus
extern "C" {
#endif
uint64_t vp_u64(const char* name);
uint32_t vp_u32(const char* name);
uint16_t vp_u16(const char* name);
uint8_t vp_u8(const char* name);
uint64_t vp_bits(const char* name, unsigned bits);          // 0 <= v < 2^bits
void vp_bytes(void* p, size_t n, const char* name);
void vp_mpz(mpz_ptr z, const char* name, int bits);         // |v| < 2^bits (0: unbounded)
void vp_mpz_u(mpz_ptr z, const char* name, int bits);       // 0 <= v < 2^bits
uint64_t vp_param(unsigned i);
void vp_assume(int c);
void vp_check(int c, const char* msg);
void vp_check_mpz_eq(mpz_srcptr a, mpz_srcptr b, const char* msg);
void vp_reach(const char* msg);
void vp_stop(void) __attribute__((noreturn));
int vp_and(int a, int b);
int vp_or(int a, int b);
int vp_implies(int a, int b);
uint64_t vp_pick(uint64_t v, int limit);                    // fork on the concrete value
uint64_t vp_uf(const char* name, uint64_t x, uint64_t y);
void* vp_opaque(uint64_t size);                             // never dereferenced huge object
uint64_t vp_offset(const void* p, const void* base);
int vp_same_object(const void* p, const void* q);
int vp_readable(const void* p, uint64_t n);
void vp_log(const char* msg, uint64_t v);
void vp_log_mpz(const char* msg, mpz_srcptr v);
int vp_is_sym(void);                                        // 1 under the executor, 0 natively
#ifdef __cplusplus
}
#endif
