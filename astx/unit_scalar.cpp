// Scalar helpers and NTL helpers only (what the property checks of ntl.py need). Never linked or run.
#include "distributed_vector_ole/internal/ntl_helpers.cpp"
#include "distributed_vector_ole/internal/scalar_helpers.h"
namespace dvole_unit {
using namespace distributed_vector_ole;
template <typename T>
void use(T x, absl::Span<T> out) {
  (void)ScalarHelper<T>::ToUint128(x);
  (void)ScalarHelper<T>::FromUint128(0);
  (void)ScalarHelper<T>::GetBit(x, 0);
  (void)ScalarHelper<T>::SetBit(0);
  (void)ScalarHelper<T>::SizeOf();
  (void)ScalarHelper<T>::CanBeHashedInto(40., 128);
  ScalarHelper<T>::Randomize(out);
}
#define TYPE(T) template void use<T>(T, absl::Span<T>);
TYPE(uint8_t)
TYPE(uint16_t)
TYPE(uint32_t)
TYPE(uint64_t)
TYPE(int8_t)
TYPE(int16_t)
TYPE(int32_t)
TYPE(int64_t)
TYPE(absl::uint128)
TYPE(gf128)
TYPE(NTL::ZZ_p)
TYPE(NTL::zz_p)
template <typename T>
void usen() {
  (void)NTLNumBits<T>();
}
template void usen<NTL::ZZ_p>();
template void usen<NTL::zz_p>();
inline void usep() {
  (void)NTLTemp<NTL::ZZ>();
}
}  // namespace dvole_unit
