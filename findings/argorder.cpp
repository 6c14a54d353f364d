// F5: PrecomputeCommon called MakeUint128(rng(), rng()): gcc draws the low half first, clang the high half, so that parties built
// with different compilers derived different code generators from the same seed. Prints "2 1" with g++ and "1 2" with clang++.
#include <cstdio>
#include <cstdint>
uint64_t n; uint64_t r(){return ++n;}
struct U{uint64_t h,l;}; U mk(uint64_t h,uint64_t l){return {h,l};}
int main(){auto x=mk(r(),r());printf("%lu %lu\n",x.h,x.l);}
