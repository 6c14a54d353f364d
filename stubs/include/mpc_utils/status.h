// Stand-in for mpc_utils (not available offline): same names and signatures as
// the library this project uses, enough to parse, type-check and run it.
#ifndef MPC_UTILS_STATUS_H_
#define MPC_UTILS_STATUS_H_
#include <ostream>
#include <string>

#include "absl/strings/string_view.h"
namespace mpc_utils {
enum class StatusCode {
  kOk = 0,
  kCancelled = 1,
  kUnknown = 2,
  kInvalidArgument = 3,
  kDeadlineExceeded = 4,
  kNotFound = 5,
  kAlreadyExists = 6,
  kPermissionDenied = 7,
  kResourceExhausted = 8,
  kFailedPrecondition = 9,
  kAborted = 10,
  kOutOfRange = 11,
  kUnimplemented = 12,
  kInternal = 13,
  kUnavailable = 14,
  kDataLoss = 15,
  kUnauthenticated = 16,
};
class Status {
 public:
  Status() : code_(StatusCode::kOk) {}
  Status(StatusCode code, absl::string_view message)
      : code_(code), message_(message) {}
  bool ok() const { return code_ == StatusCode::kOk; }
  StatusCode code() const { return code_; }
  absl::string_view message() const { return message_; }
  std::string ToString() const { return message_; }
  void IgnoreError() const {}
  bool operator==(const Status& o) const {
    return code_ == o.code_ && message_ == o.message_;
  }
  bool operator!=(const Status& o) const { return !(*this == o); }

 private:
  StatusCode code_;
  std::string message_;
};
inline Status OkStatus() { return Status(); }
inline std::ostream& operator<<(std::ostream& os, const Status& s) {
  return os << s.ToString();
}
}  // namespace mpc_utils
#endif
