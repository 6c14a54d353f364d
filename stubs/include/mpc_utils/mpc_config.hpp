#ifndef MPC_UTILS_MPC_CONFIG_HPP_
#define MPC_UTILS_MPC_CONFIG_HPP_
#include <string>
#include <vector>
#include <boost/program_options.hpp>

#include "mpc_utils/benchmarker.hpp"
#include "mpc_utils/comm_channel.hpp"
struct server_info {
  std::string host;
  int port;
  server_info(std::string h, int p) : host(h), port(p) {}
};
class mpc_config {
 public:
  std::vector<server_info> servers;
  int party_id = -1;
  void parse(int, const char* const*) {}
};
namespace mpc_utils {
class party {
 public:
  explicit party(const mpc_config& config) : config_(config) {}
  int get_id() const { return config_.party_id; }
  comm_channel connect_to(int peer, bool measured = false) {
    auto p = std::make_shared<StubPipe>();
    return comm_channel(get_id(), peer, p, p, measured);
  }

 private:
  mpc_config config_;
};
}  // namespace mpc_utils
#endif
