#ifndef MPC_UTILS_BENCHMARKER_HPP_
#define MPC_UTILS_BENCHMARKER_HPP_
#include <chrono>
#include <map>
#include <string>
namespace mpc_utils {
class Benchmarker {
 public:
  using time_point = std::chrono::steady_clock::time_point;
  static time_point StartTimer() { return std::chrono::steady_clock::now(); }
  void AddSecondsSinceStart(const std::string& key, const time_point& start) {
    values_[key] += std::chrono::duration<double>(
                        std::chrono::steady_clock::now() - start)
                        .count();
  }
  void AddAmount(const std::string& key, double amount) {
    values_[key] += amount;
  }
  double Get(const std::string& key) { return values_[key]; }
  template <typename F>
  void BenchmarkFunction(const std::string& key, F f) {
    auto start = StartTimer();
    f();
    AddSecondsSinceStart(key, start);
  }

 private:
  std::map<std::string, double> values_;
};
}  // namespace mpc_utils
#endif
