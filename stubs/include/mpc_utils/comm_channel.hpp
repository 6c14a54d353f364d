#ifndef MPC_UTILS_COMM_CHANNEL_HPP_
#define MPC_UTILS_COMM_CHANNEL_HPP_
// In-process stand-in for mpc_utils::comm_channel: two endpoints joined by two
// queues of type-erased messages.
#include <any>
#include <chrono>
#include <condition_variable>
#include <cstdint>
#include <cstring>
#include <deque>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <thread>
#include <string>
#include <vector>
namespace mpc_utils {
struct StubPipe {
  std::mutex mutex;
  std::condition_variable cv;
  std::deque<std::any> queue;
  void Push(std::any a) {
    {
      std::lock_guard<std::mutex> l(mutex);
      queue.push_back(std::move(a));
    }
    cv.notify_all();
  }
  std::any Pop() {
    std::unique_lock<std::mutex> l(mutex);
    if (!cv.wait_for(l, std::chrono::seconds(60),
                     [this] { return !queue.empty(); }))
      throw std::runtime_error("comm_channel: timeout");
    std::any a = std::move(queue.front());
    queue.pop_front();
    return a;
  }
};
class comm_channel {
 public:
  comm_channel(int id, int peer_id, std::shared_ptr<StubPipe> out,
               std::shared_ptr<StubPipe> in, bool measured = false)
      : id_(id), peer_id_(peer_id), measured_(measured), out_(out), in_(in) {}
  template <typename T>
  void send(const T& obj) {
    pending_.push_back(std::any(obj));
  }
  template <typename T>
  void recv(T& obj) {
    flush();
    obj = std::any_cast<T>(in_->Pop());
  }
  template <typename T, typename S>
  void send_recv(const T& in, S& out) {
    send(in);
    recv(out);
  }
  void send_data(const void* data, size_t n) {
    const char* p = static_cast<const char*>(data);
    pending_.push_back(std::any(std::string(p, n)));
  }
  void recv_data(void* data, size_t n) {
    flush();
    std::string s = std::any_cast<std::string>(in_->Pop());
    if (s.size() != n) throw std::runtime_error("recv_data: size mismatch");
    std::memcpy(data, s.data(), n);
  }
  void flush() {
    for (auto& a : pending_) out_->Push(std::move(a));
    pending_.clear();
  }
  void sync() {
    send(int(-42));
    int x;
    recv(x);
  }
  int get_id() const { return id_; }
  int get_peer_id() const { return peer_id_; }
  bool is_measured() const { return measured_; }
  int64_t get_num_bytes_sent() const { return 0; }
  int64_t get_num_bytes_received() const { return 0; }

 private:
  int id_, peer_id_;
  bool measured_;
  std::vector<std::any> pending_;
  std::shared_ptr<StubPipe> out_, in_;
};
}  // namespace mpc_utils
using mpc_utils::comm_channel;
#endif
