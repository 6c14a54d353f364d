// F3: RunIndexProviderVectorOLE accepted indices equal to the output's length (and negative ones): the index is in no bucket, so it
// was looked up past the end of one and the shared value was lost or written to a neighbour.
#include "distributed_vector_ole/aes_uniform_bit_generator.cpp"
#include "distributed_vector_ole/all_but_one_random_ot.cpp"
#include "distributed_vector_ole/cuckoo_hasher.cpp"
#include "distributed_vector_ole/ggm_tree.cpp"
#include "distributed_vector_ole/internal/ntl_helpers.cpp"
#include "distributed_vector_ole/mpfss_known_indices.cpp"
#include "distributed_vector_ole/scalar_vector_gilboa_product.cpp"
#include "distributed_vector_ole/spfss_known_index.cpp"
#include "mpc_utils/testing/comm_channel_test_helper.hpp"
#include <cstdio>
#include <thread>
using namespace distributed_vector_ole;
int main() {
  mpc_utils::testing::CommChannelTestHelper h(false);
  std::unique_ptr<MPFSSKnownIndices> other;
  std::thread t([&] { other = MPFSSKnownIndices::Create(h.GetChannel(1), 40).ValueOrDie(); });
  auto m = MPFSSKnownIndices::Create(h.GetChannel(0), 40).ValueOrDie();
  t.join();
  int bad = 0;
  for (int64_t index : {int64_t{100}, int64_t{-1}}) {
    int nb = m->NumBuckets(1).ValueOrDie();
    std::vector<uint64_t> y{7}, u(nb), v(nb), out(100);
    std::vector<int64_t> indices{index};
    std::thread val([&] { (void)other->RunValueProviderVectorOLE<uint64_t>(3, 1, std::vector<uint64_t>(nb), absl::MakeSpan(out)); });
    std::vector<uint64_t> mine(100);
    auto s = m->RunIndexProviderVectorOLE<uint64_t>(y, indices, u, v, absl::MakeSpan(mine));
    printf("index %d of 100: %s\n", (int)index, s.ok() ? "accepted" : "rejected");
    bad |= s.ok();
    if (!s.ok()) { fflush(stdout); val.detach(); } else val.join();
  }
  fflush(stdout);
  _exit(bad);
}
