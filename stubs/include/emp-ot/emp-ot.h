#ifndef EMP_OT_STUB_H_
#define EMP_OT_STUB_H_
// Stand-in for the patched emp-ot fork: ideal-functionality OT over the IO
// object, same names and signatures as used by this project.
#include <emmintrin.h>
#include <immintrin.h>
#include <cassert>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <memory>
#include <numeric>
#include <string>
#include <vector>

#include "openssl/rand.h"
using namespace std;
namespace emp {
typedef __m128i block;
inline block makeBlock(uint64_t high, uint64_t low) {
  return _mm_set_epi64x(static_cast<long long>(high),
                        static_cast<long long>(low));
}
inline void initialize_relic() {}
template <typename IO>
class SHOTExtension {
 public:
  explicit SHOTExtension(IO* io) : io_(io) {}
  void send(const block* data0, const block* data1, int64_t length) {
    for (int64_t i = 0; i < length; i++) {
      block pair[2] = {data0[i], data1[i]};
      io_->send_data(pair, sizeof(pair));
    }
    io_->flush();
  }
  void recv(block* data, const bool* choices, int64_t length) {
    for (int64_t i = 0; i < length; i++) {
      block pair[2];
      io_->recv_data(pair, sizeof(pair));
      data[i] = choices[i] ? pair[1] : pair[0];
    }
  }
  template <typename F>
  void send_cot_ft(block* data0, F correlator, int64_t length) {
    for (int64_t i = 0; i < length; i++) {
      RAND_bytes(reinterpret_cast<uint8_t*>(&data0[i]), sizeof(block));
      block pair[2] = {data0[i], correlator(data0[i], i)};
      io_->send_data(pair, sizeof(pair));
    }
    io_->flush();
  }
  void recv_cot(block* data, const bool* choices, int64_t length) {
    recv(data, choices, length);
  }

 private:
  IO* io_;
};
}  // namespace emp
#endif
