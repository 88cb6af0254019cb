#ifndef VERIF_HARNESS_ALGEBRA_COMMON_H_
#define VERIF_HARNESS_ALGEBRA_COMMON_H_

#include <array>
#include <string>
#include <vector>

#include "verif/pbt/gen.h"
#include "verif/pbt/pbt.h"

namespace algebra {

using namespace pbt;  // NOLINT
using tachyon::math::BigInt;

// An exponent and the same as an integer.
template <size_t N>
struct Exponent {
  BigInt<N> b;
  mpz_class z;
};

template <size_t N>
Exponent<N> AnyExponent(Case& c) {
  Exponent<N> e;
  e.b = AnyBigInt<N>(c);
  e.z = ToMpz(e.b);
  return e;
}

// Right to left, with multiplication only.
template <typename G>
G RefPow(const G& g, const mpz_class& e) {
  G acc = G::One(), sq = g;
  size_t n = mpz_sizeinbase(e.get_mpz_t(), 2);
  for (size_t i = 0; i < n; ++i) {
    if (mpz_tstbit(e.get_mpz_t(), i)) acc = acc * sq;
    sq = sq * sq;
  }
  return acc;
}

// Right to left, with addition only.
template <typename G, typename R = G>
R RefMul(const G& g, const mpz_class& e) {
  R acc = R::Zero(), dbl = R::Zero();
  dbl = dbl + g;
  size_t n = mpz_sizeinbase(e.get_mpz_t(), 2);
  for (size_t i = 0; i < n; ++i) {
    if (mpz_tstbit(e.get_mpz_t(), i)) acc = acc + dbl;
    dbl = dbl + dbl;
  }
  return acc;
}

inline size_t RevBits(size_t i, size_t log) {
  size_t r = 0;
  for (size_t b = 0; b < log; ++b)
    if (i >> b & 1) r |= size_t{1} << (log - 1 - b);
  return r;
}

// Mostly short, sometimes past every threshold for chunks.
inline size_t Length(Case& c, size_t max) {
  switch (c.Draw(9)) {
    case 0:
      return c.Draw(3);
    case 1:
      return c.Draw(max);
    case 2: {  // around a power of two
      size_t p = size_t{1} << c.Draw(10);
      size_t n = p + c.Draw(2) - 1;
      return n > max ? max : n;
    }
    default:
      return c.Size(40);
  }
}

}  // namespace algebra

#endif  // VERIF_HARNESS_ALGEBRA_COMMON_H_
