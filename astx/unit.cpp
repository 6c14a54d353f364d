// The translation unit whose type-checked form is analysed. Never linked or run.
#include "distributed_vector_ole/aes_uniform_bit_generator.cpp"
#include "distributed_vector_ole/all_but_one_random_ot.cpp"
#include "distributed_vector_ole/cuckoo_hasher.cpp"
#include "distributed_vector_ole/distributed_vector_ole.cpp"
#include "distributed_vector_ole/gf128.cpp"
#include "distributed_vector_ole/ggm_tree.cpp"
#include "distributed_vector_ole/internal/ntl_helpers.cpp"
#include "distributed_vector_ole/mpfss_known_indices.cpp"
#include "distributed_vector_ole/scalar_vector_gilboa_product.cpp"
#include "distributed_vector_ole/spfss_known_index.cpp"
#include "distributed_vector_ole/distributed_vector_ole.h"
namespace dvole_unit {
using namespace distributed_vector_ole;
template <typename T>
void use(AllButOneRandomOT &ot, ScalarVectorGilboaProduct &g, SPFSSKnownIndex &s, MPFSSKnownIndices &m,
         CuckooHasher &h, T x, absl::Span<T> out, absl::Span<const T> in, absl::Span<const int64_t> idx) {
  (void)ot.RunSender<T>(out);
  (void)ot.RunReceiver<T>(0, out);
  (void)g.RunVectorProvider<T>(in, out);
  (void)g.RunVectorProvider<T>(in);
  (void)g.RunValueProvider<T>(x, out);
  (void)g.RunValueProvider<T>(x, 1);
  (void)s.RunValueProvider<T>(x, out);
  (void)s.RunValueProvider<T>(x, 1);
  (void)s.RunIndexProvider<T>(x, 0, out);
  (void)s.RunIndexProvider<T>(x, 0, 1);
  (void)m.RunValueProviderVectorOLE<T>(x, 1, in, out);
  (void)m.RunIndexProviderVectorOLE<T>(in, idx, in, in, out);
  (void)ScalarHelper<T>::ToUint128(x);
  (void)ScalarHelper<T>::FromUint128(0);
  (void)ScalarHelper<T>::GetBit(x, 0);
  (void)ScalarHelper<T>::SetBit(0);
  (void)ScalarHelper<T>::SizeOf();
  (void)ScalarHelper<T>::CanBeHashedInto(40., 128);
  (void)gilboa_internal::GetBits<T>(x);
}
template <typename I>
void use_hasher(CuckooHasher &h, absl::Span<const I> in) {
  (void)h.HashSimple<I>(in, 1);
  (void)h.HashCuckoo<I>(in, 1);
}
template void use_hasher<int>(CuckooHasher &, absl::Span<const int>);
template void use_hasher<int64_t>(CuckooHasher &, absl::Span<const int64_t>);
template void use_hasher<uint64_t>(CuckooHasher &, absl::Span<const uint64_t>);
template void use_hasher<absl::uint128>(CuckooHasher &, absl::Span<const absl::uint128>);
#define TYPE(T)                                                                                                          \
  template void use<T>(AllButOneRandomOT &, ScalarVectorGilboaProduct &, SPFSSKnownIndex &, MPFSSKnownIndices &,          \
                       CuckooHasher &, T, absl::Span<T>, absl::Span<const T>, absl::Span<const int64_t>);
TYPE(uint8_t)
TYPE(uint64_t)
TYPE(absl::uint128)
TYPE(gf128)
TYPE(NTL::ZZ_p)
TYPE(NTL::zz_p)
}  // namespace dvole_unit
template class distributed_vector_ole::DistributedVectorOLE<uint8_t>;
template class distributed_vector_ole::DistributedVectorOLE<uint64_t>;
template class distributed_vector_ole::DistributedVectorOLE<absl::uint128>;
template class distributed_vector_ole::DistributedVectorOLE<distributed_vector_ole::gf128>;
template class distributed_vector_ole::DistributedVectorOLE<NTL::ZZ_p>;
template class distributed_vector_ole::DistributedVectorOLE<NTL::zz_p>;
