// Entry points through which the GF(2^128) code is analysed. Never linked or run.
#include "distributed_vector_ole/gf128.cpp"
using distributed_vector_ole::gf128;
typedef unsigned long u64;
#define PUB extern "C" __attribute__((used))
static inline gf128 ld(const u64 *p) { return gf128(p[1], p[0]); }
static inline void st(u64 *p, const gf128 &x) {
  absl::uint128 v = static_cast<absl::uint128>(x);
  p[0] = absl::Uint128Low64(v);
  p[1] = absl::Uint128High64(v);
}
// Multiplicative structure.
PUB void k_mul_assign(u64 *o, const u64 *a, const u64 *b, u64 *keep) { gf128 x = ld(a), y = ld(b); gf128 &r = (x *= y); st(o, r); st(keep, y); st(keep + 2, x); }
PUB void k_mul(u64 *o, const u64 *a, const u64 *b, u64 *keep) { const gf128 x = ld(a), y = ld(b); st(o, x * y); st(keep, y); st(keep + 2, x); }
PUB void k_mul_self(u64 *o, const u64 *a) { gf128 x = ld(a); x *= x; st(o, x); }
PUB void k_mul_same(u64 *o, const u64 *a, u64 *keep) { const gf128 x = ld(a); st(o, x * x); st(keep, x); }
PUB void k_square(u64 *o, const u64 *a) { gf128 x = ld(a); x.square(); st(o, x); }
PUB void k_squared(u64 *o, const u64 *a, u64 *keep) { const gf128 x = ld(a); st(o, x.squared()); st(keep, x); }
PUB void k_mul_chain(u64 *o, const u64 *a, const u64 *b) { gf128 x = ld(a), y = ld(b); x *= (y *= x); st(o, y); st(o + 2, x); }
// Additive structure.
PUB void k_add_assign(u64 *o, const u64 *a, const u64 *b, u64 *keep) { gf128 x = ld(a), y = ld(b); gf128 &r = (x += y); st(o, r); st(keep, y); st(keep + 2, x); }
PUB void k_sub_assign(u64 *o, const u64 *a, const u64 *b, u64 *keep) { gf128 x = ld(a), y = ld(b); gf128 &r = (x -= y); st(o, r); st(keep, y); st(keep + 2, x); }
PUB void k_add(u64 *o, const u64 *a, const u64 *b, u64 *keep) { const gf128 x = ld(a), y = ld(b); st(o, x + y); st(keep, y); st(keep + 2, x); }
PUB void k_sub(u64 *o, const u64 *a, const u64 *b, u64 *keep) { const gf128 x = ld(a), y = ld(b); st(o, x - y); st(keep, y); st(keep + 2, x); }
PUB void k_add_self(u64 *o, const u64 *a) { gf128 x = ld(a); x += x; st(o, x); }
PUB void k_sub_self(u64 *o, const u64 *a) { gf128 x = ld(a); x -= x; st(o, x); }
PUB void k_neg(u64 *o, const u64 *a, u64 *keep) { const gf128 x = ld(a); st(o, -x); st(keep, x); }
PUB void k_sum_neg(u64 *o, const u64 *a) { const gf128 x = ld(a); st(o, x + (-x)); }
PUB void k_zero(u64 *o) { st(o, gf128::zero()); }
PUB void k_one(u64 *o) { st(o, gf128::one()); }
PUB void k_default(u64 *o) { st(o, gf128()); }
PUB void k_lowctor(u64 *o, const u64 *a) { st(o, gf128(a[0])); }
// Representation.
PUB void k_from128(u64 *o, const u64 *a) { st(o, gf128(absl::MakeUint128(a[1], a[0]))); }
PUB void k_hilo(u64 *o, const u64 *a) { st(o, gf128(a[1], a[0])); }
PUB void k_words(u64 *o, const u64 *a) { auto v = ld(a).as_words(); o[0] = v[0]; o[1] = v[1]; o[2] = v.size(); }
PUB int k_eq(const u64 *a, const u64 *b) { return ld(a) == ld(b); }
PUB int k_ne(const u64 *a, const u64 *b) { return ld(a) != ld(b); }
PUB int k_iszero(const u64 *a) { return ld(a).is_zero(); }
template <int N> struct Rank : Rank<N - 1> {};
template <> struct Rank<0> {};
struct Sink {
  u64 *p;
  int n;
  void put(u64 v) { p[n++] = v; }
  template <typename A> auto go(const A &a, Rank<3> *) -> decltype(AbslHashValue(static_cast<Sink &&>(*this), a), void()) { *this = AbslHashValue(static_cast<Sink &&>(*this), a); }
  template <typename A> auto go(const A &a, Rank<2> *) -> decltype(a.data(), a.size(), void()) { for (size_t i = 0; i < a.size(); i++) one(a[i]); }
  template <typename A, typename B> void go(const std::pair<A, B> &a, Rank<2> *) { one(a.first); one(a.second); }
  template <typename A, size_t M> void go(const A (&a)[M], Rank<2> *) { for (const auto &x : a) one(x); }
  template <typename A, typename = std::enable_if_t<std::is_same<A, absl::uint128>::value>> void go(const A &a, Rank<1> *) { put(absl::Uint128Low64(a)); put(absl::Uint128High64(a)); }
  template <typename A> void go(const A &a, Rank<0> *) { put((u64)a); }
  template <typename A> void one(const A &a) { go(a, (Rank<3> *)nullptr); }
  static Sink combine(Sink s) { return s; }
  template <typename A, typename... R>
  static Sink combine(Sink s, const A &a, const R &... r) { s.one(a); return combine(static_cast<Sink &&>(s), r...); }
  template <typename A>
  static Sink combine_contiguous(Sink s, const A *a, size_t n) { for (size_t i = 0; i < n; i++) s.one(a[i]); return s; }
};
PUB int k_hash(u64 *o, const u64 *a) { Sink s{o, 0}; s = AbslHashValue(s, ld(a)); return s.n; }
struct Out {
  unsigned char *p;
  u64 n;
  template <typename A> Out &operator&(A &a) { __builtin_memcpy(p + n, &a, sizeof(a)); n += sizeof(a); return *this; }
  template <typename A> Out &operator<<(A &a) { return *this & a; }
};
struct In {
  unsigned char *p;
  u64 n;
  template <typename A> In &operator&(A &a) { __builtin_memcpy(&a, p + n, sizeof(a)); n += sizeof(a); return *this; }
  template <typename A> In &operator>>(A &a) { return *this & a; }
};
PUB void k_serialize(u64 *o, const u64 *a) {
  unsigned char buf[64];
  gf128 x = ld(a);
  Out s{buf, 0};
  x.serialize(s, 0);
  gf128 y(~0ul, ~0ul);
  In r{buf, 0};
  y.serialize(r, 0);
  st(o, y);
  st(o + 2, x);
  o[4] = s.n == r.n;
}
PUB void k_randomize(u64 *o) { gf128 x; x.randomize(); st(o, x); }
PUB void k_random_element(u64 *o) { st(o, gf128::random_element()); }
// Inverse and generator.
PUB void k_inverse(gf128 *o, const gf128 *a) { *o = a->inverse(); }
PUB void k_generator(u64 *o) { st(o, gf128::multiplicative_generator); }
