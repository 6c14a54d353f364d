// The refusal after kReseedInterval AES calls must persist until seed() is called: a caller that catches the exception and
// calls again must not receive more output under the same seed.  (2^48 AES calls cannot be run; the counter is set directly.)
#include <cstdint>
#include <string>
#include <sstream>
#include <vector>
#include <limits>
#include "absl/numeric/int128.h"
#include "absl/types/span.h"
#include "mpc_utils/status.h"
#include "mpc_utils/statusor.h"
#include "openssl/aes.h"
#define private public
#include "distributed_vector_ole/aes_uniform_bit_generator.h"
#undef private
#include "distributed_vector_ole/aes_uniform_bit_generator.cpp"
#include <cstdio>
using namespace distributed_vector_ole;
int main() {
  alignas(16) uint8_t s[32] = {1, 2, 3};
  auto a = AESUniformBitGenerator::Create(absl::Span<const uint8_t>(s, 32), 4).ValueOrDie();
  a.counter_ = AESUniformBitGenerator::kReseedInterval;
  int thrown = 0, n = 0;
  for (int i = 0; i < 10; i++) {
    try { a(); n++; } catch (std::runtime_error&) { thrown++; }
  }
  printf("%d refusals, %d outputs beyond the reseed interval\n", thrown, n);
  return n != 0;
}
