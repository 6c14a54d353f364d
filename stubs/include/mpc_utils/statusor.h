#ifndef MPC_UTILS_STATUSOR_H_
#define MPC_UTILS_STATUSOR_H_
#include <cstdlib>
#include <iostream>
#include <memory>
#include <type_traits>
#include <utility>

#include "absl/types/optional.h"
#include "mpc_utils/canonical_errors.h"
#include "mpc_utils/status.h"
namespace mpc_utils {
template <typename T>
class StatusOr {
  template <typename U>
  friend class StatusOr;

 public:
  typedef T element_type;
  StatusOr() : status_(StatusCode::kUnknown, "") {}
  StatusOr(const Status& status) : status_(status) {}
  StatusOr(const T& value) : value_(value) {}
  StatusOr(T&& value) : value_(std::move(value)) {}
  StatusOr(const StatusOr&) = default;
  StatusOr(StatusOr&&) = default;
  StatusOr& operator=(const StatusOr&) = default;
  StatusOr& operator=(StatusOr&&) = default;
  template <typename U, typename std::enable_if<
                            std::is_convertible<U&&, T>::value, int>::type = 0>
  StatusOr(StatusOr<U>&& other) : status_(other.status_) {
    if (other.ok()) value_ = T(std::move(*other.value_));
  }
  const Status& status() const { return status_; }
  bool ok() const { return status_.ok(); }
  const T& ValueOrDie() const& {
    EnsureOk();
    return *value_;
  }
  T& ValueOrDie() & {
    EnsureOk();
    return *value_;
  }
  T&& ValueOrDie() && {
    EnsureOk();
    return std::move(*value_);
  }

 private:
  void EnsureOk() const {
    if (!ok()) {
      std::cerr << status_.message() << std::endl;
      std::abort();
    }
  }
  Status status_;
  absl::optional<T> value_;
};
}  // namespace mpc_utils
#endif
