// Contract language.  The same contract file is compiled twice:
//  * to LLVM IR together with the library sources and verified by engine/irv
//    (vp_nd_* = universally quantified inputs, vp_assume = requires,
//     vp_assert = ensures / invariant obligation);
//  * natively (contracts/vp_native.cpp) where vp_nd_* replay the values of a
//    counterexample (or random values) and vp_assert is a run-time check.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <string>
#include <vector>
extern "C" {
uint8_t vp_nd_u8(const char* name);
uint16_t vp_nd_u16(const char* name);
uint32_t vp_nd_u32(const char* name);
uint64_t vp_nd_u64(const char* name);
bool vp_nd_bool(const char* name);
double vp_nd_double(const char* name);
float vp_nd_float(const char* name);
void vp_nd_bytes(void* p, uint64_t n, const char* name);
void vp_assume(bool c);
void vp_assert(bool c, const char* label);
void vp_reach(const char* label);          // must be reachable (vacuity guard)
uint64_t vp_choose(uint64_t n, const char* name);   // case split: each of 0..n-1 explored
uint64_t vp_concrete_u64(uint64_t v);      // case split on a value (complete enumeration)
bool vp_is_symbolic();
void vp_incomplete(const char* why);       // declares a stated bound
void vp_assumption(const char* what);      // declares a trusted assumption
void vp_path_end();
void vp_print(const char* n, uint64_t v);
}
#define VP_CONTRACT(name) extern "C" void vp_contract_##name()
inline uint64_t vp_dbits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
inline uint32_t vp_fbits(float d) { uint32_t u; memcpy(&u, &d, 4); return u; }
inline std::vector<uint8_t> vp_vec(uint64_t n, const char* name) {
  std::vector<uint8_t> v(n);
  if (n > 0) vp_nd_bytes(v.data(), n, name);
  return v;
}
#define VP_REQUIRES(c) vp_assume(c)
#define VP_ENSURES(c, label) vp_assert((c), label)
extern "C" {
void vp_merge(bool on);                    // engine tuning only, no meaning
bool vp_is_const(uint64_t v);
}
