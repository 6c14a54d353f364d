#ifndef MPC_UTILS_COMM_CHANNEL_EMP_ADAPTER_HPP_
#define MPC_UTILS_COMM_CHANNEL_EMP_ADAPTER_HPP_
#include <memory>

#include "mpc_utils/comm_channel.hpp"
#include "mpc_utils/statusor.h"
namespace mpc_utils {
class CommChannelEMPAdapter {
 public:
  static StatusOr<std::unique_ptr<CommChannelEMPAdapter>> Create(
      comm_channel* channel, bool direct_connection = false,
      int sleep_time = 50) {
    if (!channel) return InvalidArgumentError("`channel` must not be NULL");
    return std::unique_ptr<CommChannelEMPAdapter>(
        new CommChannelEMPAdapter(channel));
  }
  void send_data(const void* data, int64_t nbyte) {
    channel_->send_data(data, nbyte);
  }
  void recv_data(void* data, int64_t nbyte) {
    channel_->recv_data(data, nbyte);
  }
  void flush() { channel_->flush(); }
  comm_channel* channel() { return channel_; }

 private:
  explicit CommChannelEMPAdapter(comm_channel* channel) : channel_(channel) {}
  comm_channel* channel_;
};
}  // namespace mpc_utils
#endif
