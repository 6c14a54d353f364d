#ifndef MPC_UTILS_TESTING_COMM_CHANNEL_TEST_HELPER_HPP_
#define MPC_UTILS_TESTING_COMM_CHANNEL_TEST_HELPER_HPP_
#include "mpc_utils/comm_channel.hpp"
namespace mpc_utils {
namespace testing {
class CommChannelTestHelper {
 public:
  explicit CommChannelTestHelper(bool measured = false)
      : a_(std::make_shared<StubPipe>()),
        b_(std::make_shared<StubPipe>()),
        c0_(0, 1, a_, b_, measured),
        c1_(1, 0, b_, a_, measured) {}
  comm_channel* GetChannel(int id) { return id == 0 ? &c0_ : &c1_; }

 private:
  std::shared_ptr<StubPipe> a_, b_;
  comm_channel c0_, c1_;
};
}  // namespace testing
}  // namespace mpc_utils
#endif
