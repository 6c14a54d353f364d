// Entry points through which the integer / GF(2^128) scalar helpers are analysed. Never linked or run.
#include "distributed_vector_ole/gf128.cpp"
#include "distributed_vector_ole/internal/scalar_helpers.h"
using namespace distributed_vector_ole;
typedef unsigned long u64;
#define PUB extern "C" __attribute__((used))
static inline absl::uint128 ld(const u64 *p) { return absl::MakeUint128(p[1], p[0]); }
static inline void st(u64 *p, absl::uint128 v) { p[0] = absl::Uint128Low64(v); p[1] = absl::Uint128High64(v); }
#define ALL(T, N)                                                                                                   \
  PUB void from_##N(T *o, const u64 *a) { *o = ScalarHelper<T>::FromUint128(ld(a)); }                              \
  PUB void to_##N(u64 *o, const T *a) { const T x = *a; st(o, ScalarHelper<T>::ToUint128(x)); }                     \
  PUB void trip_##N(T *o, const T *a) { const T x = *a; *o = ScalarHelper<T>::FromUint128(ScalarHelper<T>::ToUint128(x)); } \
  PUB void bits_##N(u64 *o, const T *a) { for (int k = 0; k < int(8 * sizeof(T)); k++) o[k] = ScalarHelper<T>::GetBit(*a, k); } \
  PUB void setbit_##N(T *o) { for (int k = 0; k < int(8 * sizeof(T)); k++) o[k] = ScalarHelper<T>::SetBit(k); }      \
  PUB void size_##N(u64 *o) { *o = ScalarHelper<T>::SizeOf(); }                                                     \
  PUB void hashable_##N(u64 *o) { for (int b = 0; b <= 136; b++) o[b] = ScalarHelper<T>::CanBeHashedInto(40., b); }   \
  PUB void rand_##N(T *p, u64 n) { ScalarHelper<T>::Randomize(absl::Span<T>(p, n)); }                               \
  PUB void rand0_##N(T *p) { ScalarHelper<T>::Randomize(absl::Span<T>(p, 0)); }                                     \
  PUB void rand1_##N(T *p) { ScalarHelper<T>::Randomize(absl::Span<T>(p, 1)); }                                     \
  PUB void rand5_##N(T *p) { ScalarHelper<T>::Randomize(absl::Span<T>(p, 5)); }
ALL(uint8_t, u8)
ALL(uint16_t, u16)
ALL(uint32_t, u32)
ALL(uint64_t, u64)
ALL(int8_t, i8)
ALL(int16_t, i16)
ALL(int32_t, i32)
ALL(int64_t, i64)
ALL(absl::uint128, u128)
ALL(gf128, gf128)
PUB void k_randomize(gf128 *o) { o->randomize(); }
PUB void k_random_element(gf128 *o) { *o = gf128::random_element(); }
