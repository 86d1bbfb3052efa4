// Interface between harnesses and the symbolic executor.  The same calls read a
// recorded counterexample when the harness is compiled natively (native.cpp).
#pragma once
#include <stddef.h>
#include <stdint.h>
extern "C" {
void sym_bytes(void* p, size_t n, const char* name);       // n unconstrained bytes
uint64_t sym_u64(const char* name);
uint32_t sym_u32(const char* name);
uint8_t sym_u8(const char* name);
uint32_t sym_choice(uint32_t n, const char* name);         // 0..n-1, one path each
void sym_assume(int c);
void sym_assert(int c, const char* msg);                   // decided by the solver for every value
void sym_reach(const char* label);                         // non-vacuity
void sym_observe(uint64_t v, const char* name);            // compared with a native run of a sampled model
void sym_observe_bytes(const void* p, size_t n, const char* name);
uint64_t sym_param(const char* name, uint64_t def);        // bound, chosen by the driver
int sym_native(void);
uint64_t sym_live(void);                                   // live heap objects (symbolic run only)
int sym_is_concrete(const void* p, size_t n);
}
#define CHECK(c) sym_assert((c) ? 1 : 0, #c)
#define CHECKM(c, m) sym_assert((c) ? 1 : 0, m)
