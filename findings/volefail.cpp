// F10: PrecomputeSender left sender_precomputation_done_ set when a later precomputation failed half way: the next RunSender expanded
// with the emptied code generator and returned a u that is zero almost everywhere.
// F11: a negative size was accepted once precomputation was done.
#include "distributed_vector_ole/ggm_tree.cpp"
#include "distributed_vector_ole/internal/ntl_helpers.cpp"
#include "distributed_vector_ole/all_but_one_random_ot.cpp"
#include "distributed_vector_ole/aes_uniform_bit_generator.cpp"
#include "distributed_vector_ole/cuckoo_hasher.cpp"
#include "distributed_vector_ole/mpfss_known_indices.cpp"
#include "distributed_vector_ole/scalar_vector_gilboa_product.cpp"
#include "distributed_vector_ole/spfss_known_index.cpp"
#include "distributed_vector_ole/distributed_vector_ole.cpp"
#include "mpc_utils/testing/comm_channel_test_helper.hpp"
#include <cstdio>
#include <thread>
using namespace distributed_vector_ole;
using T = NTL::zz_p;
int main() {
  setvbuf(stdout, nullptr, _IONBF, 0);
  NTL::zz_p::init(1000000000000000003L);
  NTLContext<T> c;
  c.save();
  mpc_utils::testing::CommChannelTestHelper h(false);
  std::unique_ptr<DistributedVectorOLE<T>> a, b;
  const double sec = 46.5;
  auto both = [&](std::function<void()> f, std::function<void()> g) {
    std::thread t([&] { c.restore(); f(); });
    g();
    t.join();
  };
  both([&] { b = DistributedVectorOLE<T>::Create(h.GetChannel(1), sec).ValueOrDie(); },
       [&] { a = DistributedVectorOLE<T>::Create(h.GetChannel(0), sec).ValueOrDie(); });
  bool ok1, ok2, bad = false;
  both([&] { ok2 = b->PrecomputeReceiver(50, T(5)).ok(); }, [&] { ok1 = a->PrecomputeSender(50).ok(); });
  printf("precompute 50: %d %d\n", ok1, ok2);
  auto n = a->RunSender(-1);
  printf("RunSender(-1): %s\n", n.ok() ? "accepted" : "rejected");
  bad |= n.ok();
  both([&] { ok2 = b->PrecomputeReceiver(300000, T(5)).ok(); }, [&] { ok1 = a->PrecomputeSender(300000).ok(); });
  printf("precompute 300000: %d %d\n", ok1, ok2);
  long zeros = -1;
  both([&] { (void)b->RunReceiver(200000).ok(); },
       [&] {
         auto r = a->RunSender(200000);
         if (r.ok()) {
           zeros = 0;
           auto v = r.ValueOrDie();
           for (int i = 0; i < v.u.size(); i++) zeros += v.u[i] == 0;
         }
       });
  if (zeros >= 0) printf("RunSender succeeds with %ld zeros of 200000 in u\n", zeros);
  return bad || zeros > 100;
}
