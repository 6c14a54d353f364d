// Entry points through which block packing and conversion are analysed. Never linked or run.
#include "distributed_vector_ole/gf128.cpp"
#include "distributed_vector_ole/internal/gilboa_internal.h"
#include "distributed_vector_ole/internal/all_but_one_random_ot_internal.h"
using namespace distributed_vector_ole;
typedef unsigned long u64;
#define PUB extern "C" __attribute__((used))
namespace gi = gilboa_internal;
namespace ai = all_but_one_random_ot_internal;
static inline absl::uint128 ldu(const u64 *p) { return absl::MakeUint128(p[1], p[0]); }
static inline void stu(u64 *p, absl::uint128 v) { p[0] = absl::Uint128Low64(v); p[1] = absl::Uint128High64(v); }
static inline emp::block ldb(const u64 *p) { return emp::makeBlock(p[1], p[0]); }
static inline void stb(u64 *p, emp::block b) { p[0] = b[0]; p[1] = b[1]; }
#define ALL(T, N)                                                                                                          \
  PUB void pack_##N(u64 *o, const T *a) { stb(o, gi::SpanToEMPBlock<T>(absl::Span<const T>(a, 16 / sizeof(T)))); }         \
  PUB void pack1_##N(u64 *o, const T *a) { stb(o, gi::SpanToEMPBlock<T>(absl::Span<const T>(a, 1))); }                     \
  PUB void pack0_##N(u64 *o, const T *a) { stb(o, gi::SpanToEMPBlock<T>(absl::Span<const T>(a, size_t(0)))); }             \
  PUB void packs_##N(u64 *o, const T *a) { for (int j = 0; j < int(8 * sizeof(T)); j++) stb(o + 2 * j, gi::SpanToEMPBlock<T>(absl::Span<const T>(a, 16 / sizeof(T)), ScalarHelper<T>::SetBit(j))); } \
  PUB void unpack_##N(T *o, const u64 *a) { gi::EMPBlockToSpan<T>(ldb(a), absl::Span<T>(o, 16 / sizeof(T))); }             \
  PUB void trip_##N(T *o, const T *a) { gi::EMPBlockToSpan<T>(gi::SpanToEMPBlock<T>(absl::Span<const T>(a, 16 / sizeof(T))), absl::Span<T>(o, 16 / sizeof(T))); } \
  PUB void back_##N(u64 *o, const u64 *a) { T t[16 / sizeof(T)]; gi::EMPBlockToSpan<T>(ldb(a), absl::Span<T>(t, 16 / sizeof(T))); stb(o, gi::SpanToEMPBlock<T>(absl::Span<const T>(t, 16 / sizeof(T)))); }
#define VEC(T, N)                                                                                                          \
  PUB u64 vec_##N(T *o, const u64 *a) { auto v = gi::EMPBlockToVector<T>(ldb(a)); for (size_t i = 0; i < 16 / sizeof(T); i++) o[i] = v[i]; return v.size(); }
ALL(uint8_t, u8)
ALL(uint16_t, u16)
ALL(uint32_t, u32)
ALL(uint64_t, u64)
ALL(absl::uint128, u128)
ALL(gf128, gf128)
VEC(uint8_t, u8) VEC(uint32_t, u32) VEC(uint64_t, u64) VEC(absl::uint128, u128)
PUB void to_ggm(u64 *o, const u64 *a) { stu(o, ai::EMPToGGMTreeBlock(ldb(a))); }
PUB void to_emp(u64 *o, const u64 *a) { stb(o, ai::GGMTreeToEMPBlock(ldu(a))); }
PUB void ggm_trip(u64 *o, const u64 *a) { stu(o, ai::EMPToGGMTreeBlock(ai::GGMTreeToEMPBlock(ldu(a)))); }
