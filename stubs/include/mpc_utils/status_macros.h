#ifndef MPC_UTILS_STATUS_MACROS_H_
#define MPC_UTILS_STATUS_MACROS_H_
#include "mpc_utils/status.h"
#include "mpc_utils/statusor.h"
#define RETURN_IF_ERROR(expr)                       \
  do {                                              \
    const ::mpc_utils::Status _status = (expr);     \
    if (!_status.ok()) return _status;              \
  } while (0)
#define MPC_UTILS_CONCAT_INNER_(x, y) x##y
#define MPC_UTILS_CONCAT_(x, y) MPC_UTILS_CONCAT_INNER_(x, y)
#define ASSIGN_OR_RETURN_IMPL_(statusor, lhs, rexpr) \
  auto statusor = (rexpr);                           \
  if (!statusor.ok()) {                              \
    return statusor.status();                        \
  }                                                  \
  lhs = std::move(statusor).ValueOrDie();
#define ASSIGN_OR_RETURN(lhs, rexpr)                                         \
  ASSIGN_OR_RETURN_IMPL_(MPC_UTILS_CONCAT_(_status_or_value, __COUNTER__), \
                         lhs, rexpr)
#endif
