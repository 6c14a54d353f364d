#ifndef MPC_UTILS_STATUS_MATCHERS_H_
#define MPC_UTILS_STATUS_MATCHERS_H_
#include "mpc_utils/status_macros.h"
#include "gtest/gtest.h"
#define ASSERT_OK(expr) ASSERT_TRUE((expr).ok())
#define EXPECT_OK(expr) EXPECT_TRUE((expr).ok())
#define ASSERT_OK_AND_ASSIGN_IMPL_(statusor, lhs, rexpr)        \
  auto statusor = (rexpr);                                      \
  ASSERT_TRUE(statusor.ok()) << statusor.status();              \
  lhs = std::move(statusor).ValueOrDie();
#define ASSERT_OK_AND_ASSIGN(lhs, rexpr)                                       \
  ASSERT_OK_AND_ASSIGN_IMPL_(MPC_UTILS_CONCAT_(_status_or_value, __COUNTER__), \
                             lhs, rexpr)
#endif
