// Contract language used by the harness translation units.
#pragma once
#include <cstdint>
#include <cstddef>
#include <type_traits>
extern "C" {
uint8_t  vf_u8() noexcept; uint16_t vf_u16() noexcept; uint32_t vf_u32() noexcept; uint64_t vf_u64() noexcept; bool vf_bool() noexcept;
[[noreturn]] void vf_throw();             // an exception (extraction with exceptions only)
void vf_assume(bool) noexcept;
#if defined(__clang__)
__attribute__((nomerge))
#endif
void vf_check(bool, const char* name) noexcept;   // proof obligation
#if defined(__clang__)
__attribute__((nomerge))
#endif
void vf_cover(const char* name) noexcept;         // must be reachable (vacuity guard)
}
#define HARNESS extern "C" __attribute__((used,noinline)) void
template<class T> inline T vf_any(){ if constexpr(std::is_same_v<T,bool>) return vf_bool(); else if constexpr(sizeof(T)==1) return (T)vf_u8(); else if constexpr(sizeof(T)==2) return (T)vf_u16(); else if constexpr(sizeof(T)==4) return (T)vf_u32(); else return (T)vf_u64(); }
inline size_t vf_below(size_t n){ size_t r=vf_u64(); vf_assume(r<n); return r; }
inline size_t vf_upto(size_t n){ size_t r=vf_u64(); vf_assume(r<=n); return r; }
