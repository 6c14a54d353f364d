// F4/F15: CanBeHashedInto against the distribution it speaks about.
#include "distributed_vector_ole/internal/scalar_helpers.h"
#include "distributed_vector_ole/internal/ntl_helpers.cpp"
#include <cstdio>
using namespace distributed_vector_ole;
int main() {
  int bad = 0;
  NTL::zz_p::init((1ll << 40) + 1);
  // 48-bit values mod 2^40+1: 2^48 mod p = 2^40+1-2^8, distance about 2^-16: not within 2^-40
  if (ScalarHelper<NTL::zz_p>::CanBeHashedInto(40, 48)) { printf("zz_p accepts 48-bit hashes into 41-bit modulus\n"); bad |= 1; }
  NTL::ZZ_p::init((NTL::ZZ(1) << 40) + 1);
  if (ScalarHelper<NTL::ZZ_p>::CanBeHashedInto(40, 48)) { printf("ZZ_p accepts 48-bit hashes into 41-bit modulus\n"); bad |= 1; }
  // uniform 128-bit values can not be nearly uniform modulo a 140-bit prime-like modulus
  NTL::ZZ_p::init((NTL::ZZ(1) << 139) + 1);
  if (ScalarHelper<NTL::ZZ_p>::CanBeHashedInto(40, 128)) { printf("ZZ_p accepts 128-bit hashes into a 140-bit modulus\n"); bad |= 2; }
  return bad;
}
