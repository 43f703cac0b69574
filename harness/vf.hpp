// Specification intrinsics shared by every contract harness.
//   symbolic run : calls are interpreted by engine/exec.py
//   native run   : -DVF_NATIVE, vf_native.cpp (replay of counterexamples, randomised search)
#pragma once
#include <cstdint>
#include <cstddef>
#include <limits>
extern "C" {
uint8_t nd_u8(); uint16_t nd_u16(); uint32_t nd_u32(); uint64_t nd_u64();   // recorded inputs
uint8_t hv_u8(); uint16_t hv_u16(); uint32_t hv_u32(); uint64_t hv_u64();   // havoc inside contract stubs
void vf_assume(bool);                       // precondition of the function under contract
void vf_assert(bool, const char*);          // postcondition
void vf_require(bool, const char*);         // precondition checked at a call site (contract stub)
void vf_cover(bool, const char*);           // must be reachable (vacuity guard)
uint32_t vf_exc_code();                     // code() of the exception being handled
uint8_t vf_hint8(uint8_t, uint8_t); uint64_t vf_hint64(uint64_t, uint64_t);   // value of the first argument (proof hint: equals the second)
void vf_fix64(uint64_t x, uint64_t k);         // vf_assume(x == k), case split on a computed value
bool vf_same_state(const void*, const void*, size_t);   // whole objects agree (natively: true, observable behaviour is what counts)
uint64_t vf_param(int);                     // case-split constant
}
#define VF_POST(c) vf_assert((c), #c)
// proof roots: all of them in the symbolic unit, only VF_ROOT is emitted natively
#ifdef VF_NATIVE
#define ROOT(n) static inline __attribute__((unused)) void n()
#else
#define ROOT(n) extern "C" void n()
#endif
