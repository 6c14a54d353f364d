// F1: odd buffer sizes leave the last buffer element 0 forever.  F9: unaligned load of the nonce (run with SAN=-fsanitize=alignment).
#include "distributed_vector_ole/aes_uniform_bit_generator.cpp"
#include <cstdio>
using namespace distributed_vector_ole;
int main() {
  std::vector<uint8_t> buf(33 + 16, 7);
  absl::Span<const uint8_t> seed(buf.data() + 1, 32);
  auto a = AESUniformBitGenerator::Create(seed, 3).ValueOrDie();
  auto b = AESUniformBitGenerator::Create(seed, 4).ValueOrDie();
  int bad = 0;
  for (int i = 0; i < 12; i++) {
    auto x = a(), y = b();
    if (x != y) { printf("output %d: %016lx with buffer size 3, %016lx with 4\n", i, (unsigned long)x, (unsigned long)y); bad = 1; }
  }
  return bad;
}
