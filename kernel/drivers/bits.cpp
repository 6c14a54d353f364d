#include <boost/container/vector.hpp>
#include "distributed_vector_ole/gf128.cpp"
#include "distributed_vector_ole/internal/gilboa_internal.h"
using namespace distributed_vector_ole;
typedef unsigned long u64;
#define PUB extern "C" __attribute__((used))
#define BITS(T, N) PUB u64 bits_##N(unsigned char *o, const T *a) { auto v = gilboa_internal::GetBits<T>(*a); for (int k = 0; k < int(8 * sizeof(T)); k++) o[k] = v[k]; return v.size(); }
BITS(uint8_t, u8) BITS(uint16_t, u16) BITS(uint32_t, u32) BITS(uint64_t, u64) BITS(absl::uint128, u128) BITS(gf128, gf128)
