#ifndef MPC_UTILS_CANONICAL_ERRORS_H_
#define MPC_UTILS_CANONICAL_ERRORS_H_
#include "mpc_utils/status.h"
namespace mpc_utils {
#define MPC_UTILS_STUB_ERR(Name)                          \
  inline Status Name##Error(absl::string_view message) {  \
    return Status(StatusCode::k##Name, message);          \
  }                                                       \
  inline bool Is##Name(const Status& status) {            \
    return status.code() == StatusCode::k##Name;          \
  }
MPC_UTILS_STUB_ERR(Aborted)
MPC_UTILS_STUB_ERR(AlreadyExists)
MPC_UTILS_STUB_ERR(Cancelled)
MPC_UTILS_STUB_ERR(DataLoss)
MPC_UTILS_STUB_ERR(DeadlineExceeded)
MPC_UTILS_STUB_ERR(FailedPrecondition)
MPC_UTILS_STUB_ERR(Internal)
MPC_UTILS_STUB_ERR(InvalidArgument)
MPC_UTILS_STUB_ERR(NotFound)
MPC_UTILS_STUB_ERR(OutOfRange)
MPC_UTILS_STUB_ERR(PermissionDenied)
MPC_UTILS_STUB_ERR(ResourceExhausted)
MPC_UTILS_STUB_ERR(Unauthenticated)
MPC_UTILS_STUB_ERR(Unavailable)
MPC_UTILS_STUB_ERR(Unimplemented)
MPC_UTILS_STUB_ERR(Unknown)
#undef MPC_UTILS_STUB_ERR
}  // namespace mpc_utils
#endif
