// F7: SendTrees added up the number of leaves in an int: a batch of 2^31 leaves gave log2 of a negative number and was rejected
// for a modulus that is good for it (and 2^32 + 1 leaves were checked as if they were one).
#include "distributed_vector_ole/ggm_tree.cpp"
#include "distributed_vector_ole/internal/ntl_helpers.cpp"
#include "distributed_vector_ole/all_but_one_random_ot.cpp"
#include "mpc_utils/testing/comm_channel_test_helper.hpp"
#include <sys/resource.h>
#include <cstdio>
#include <thread>
using namespace distributed_vector_ole;
int main() {
  NTL::zz_p::init(3);  // 2^128 mod 3 = 1: good for 128 bits
  mpc_utils::testing::CommChannelTestHelper h(false);
  std::unique_ptr<AllButOneRandomOT> other;
  std::thread t([&] { other = AllButOneRandomOT::Create(h.GetChannel(1), 40).ValueOrDie(); });
  auto ot = AllButOneRandomOT::Create(h.GetChannel(0), 40).ValueOrDie();
  t.join();
  std::set_terminate([] { printf("accepted (out of memory afterwards)\n"); fflush(stdout); _exit(0); });
  rlimit r{1ull << 31, 1ull << 31};
  setrlimit(RLIMIT_AS, &r);  // the trees are never built: either the batch is rejected or the allocation fails
  NTL::zz_p x;
  absl::Span<NTL::zz_p> big(&x, size_t{1} << 30);
  std::vector<absl::Span<NTL::zz_p>> outs{big, big};
    auto s = ot->RunSenderBatched<NTL::zz_p>(absl::MakeSpan(outs));
    printf("2^31 leaves modulo 3: %s\n", s.ok() ? "ok" : "rejected");
  fflush(stdout);
  _exit(1);
}
