// Generators for the values most properties share.
#ifndef VERIF_HARNESS_PBT_GEN_H_
#define VERIF_HARNESS_PBT_GEN_H_

#include <gmpxx.h>

#include <algorithm>
#include <string>
#include <vector>

#include "tachyon/math/base/big_int.h"

#include "verif/pbt/pbt.h"

namespace pbt {

using tachyon::math::BigInt;

template <size_t N>
mpz_class ToMpz(const BigInt<N>& b) {
  mpz_class r;
  mpz_import(r.get_mpz_t(), N, -1, 8, 0, 0, b.limbs);
  return r;
}

// |v| must fit.
template <size_t N>
BigInt<N> FromMpz(const mpz_class& v) {
  BigInt<N> r(0);
  size_t count = 0;
  uint64_t buf[2 * N + 2] = {0};
  mpz_export(buf, &count, -1, 8, 0, 0, v.get_mpz_t());
  for (size_t i = 0; i < N; ++i) r.limbs[i] = i < count ? buf[i] : 0;
  return r;
}

inline mpz_class Pow2(size_t n) { return mpz_class(1) << n; }

// Any value of N limbs, with a bias to carries and borders.
template <size_t N>
BigInt<N> AnyBigInt(Case& c) {
  BigInt<N> r(0);
  switch (c.Draw(5)) {
    case 0:
      r.limbs[0] = c.Draw(20);
      break;
    case 1: {  // 2^k, 2^k - 1, -2^k, ~2^k
      size_t k = c.Draw(64 * N - 1);
      r.limbs[k / 64] = uint64_t{1} << (k % 64);
      uint64_t how = c.Draw(3);
      if (how & 1) {
        for (size_t i = 0; i < N; ++i)
          if (r.limbs[i]-- != 0) break;
      }
      if (how & 2)
        for (size_t i = 0; i < N; ++i) r.limbs[i] = ~r.limbs[i];
      break;
    }
    case 2:  // near the maximum
      for (size_t i = 0; i < N; ++i) r.limbs[i] = UINT64_MAX;
      r.limbs[0] -= c.Draw(20);
      break;
    case 3: {  // a random number of significant bits
      size_t bits = c.Range(1, 64 * N);
      for (size_t i = 0; i < N; ++i) r.limbs[i] = c.Draw(UINT64_MAX);
      for (size_t i = 0; i < N; ++i) {
        if (i * 64 >= bits)
          r.limbs[i] = 0;
        else if (bits - i * 64 < 64)
          r.limbs[i] &= (uint64_t{1} << (bits - i * 64)) - 1;
      }
      break;
    }
    default:
      for (size_t i = 0; i < N; ++i) r.limbs[i] = c.U64();
  }
  return r;
}

// A value in [0, m), m > 0, with a bias to the borders of that range.
inline mpz_class Below(Case& c, const mpz_class& m) {
  size_t bits = mpz_sizeinbase(m.get_mpz_t(), 2);
  size_t limbs = (bits + 63) / 64;
  auto random = [&]() {
    mpz_class r = 0;
    for (size_t i = 0; i < limbs; ++i) {
      mpz_class t;
      uint64_t v = c.Draw(UINT64_MAX);
      mpz_import(t.get_mpz_t(), 1, -1, 8, 0, 0, &v);
      r = (r << 64) + t;
    }
    return r;
  };
  mpz_class r;
  switch (c.Draw(7)) {
    case 0:
      r = static_cast<unsigned long>(c.Draw(8));
      break;
    case 1:
      r = m - 1 - static_cast<unsigned long>(c.Draw(8));
      break;
    case 2:
      r = (m - 1) / 2 + static_cast<unsigned long>(c.Draw(4)) - 2;
      break;
    case 3:
      r = Pow2(c.Draw(bits)) - static_cast<unsigned long>(c.Draw(1));
      break;
    case 4:
      r = m - Pow2(c.Draw(bits - 1));
      break;
    case 5: {
      for (size_t i = 0; i < limbs; ++i) {
        mpz_class t;
        uint64_t v = c.U64();
        mpz_import(t.get_mpz_t(), 1, -1, 8, 0, 0, &v);
        r = (r << 64) + t;
      }
      break;
    }
    default:
      r = random();
  }
  mpz_class q;
  mpz_fdiv_r(q.get_mpz_t(), r.get_mpz_t(), m.get_mpz_t());
  return q;
}

template <typename F>
mpz_class Modulus() {
  if constexpr (F::Config::kModulusBits <= 32) {
    return mpz_class(static_cast<unsigned long>(F::Config::kModulus));
  } else {
    return ToMpz(F::Config::kModulus);
  }
}

// Reference conversions, independent of the field's own: for wide fields the
// limbs of a canonical integer, for narrow ones the integer.
template <typename F>
F FieldFromMpz(const mpz_class& v) {
  if constexpr (F::Config::kModulusBits <= 32) {
    return F(static_cast<uint32_t>(v.get_ui()));
  } else {
    return F(FromMpz<F::kLimbNums>(v));
  }
}
template <typename F>
mpz_class FieldToMpz(const F& v) {
  return ToMpz(v.ToBigInt());
}

// A field element with a bias to the borders.
template <typename F>
F AnyPrimeField(Case& c) {
  return FieldFromMpz<F>(Below(c, Modulus<F>()));
}
template <typename F>
F NonZeroPrimeField(Case& c) {
  F f = AnyPrimeField<F>(c);
  return f.IsZero() ? F::One() : f;
}

// Bulk data: uniform with some special values.
template <typename F>
F BulkPrimeField(Rng& r) {
  switch (r.Upto(15)) {
    case 0:
      return F::Zero();
    case 1:
      return F::One();
    case 2:
      return -F::One();
    default: {
      constexpr size_t kN = F::BigIntTy::kLimbNums;
      mpz_class v = 0;
      for (size_t i = 0; i < kN; ++i) {
        mpz_class t;
        uint64_t x = r.Next();
        mpz_import(t.get_mpz_t(), 1, -1, 8, 0, 0, &x);
        v = (v << 64) + t;
      }
      mpz_class q, m = Modulus<F>();
      mpz_fdiv_r(q.get_mpz_t(), v.get_mpz_t(), m.get_mpz_t());
      return FieldFromMpz<F>(q);
    }
  }
}
template <typename F>
std::vector<F> BulkPrimeFields(Rng& r, size_t n) {
  std::vector<F> v;
  v.reserve(n);
  for (size_t i = 0; i < n; ++i) v.push_back(BulkPrimeField<F>(r));
  return v;
}

}  // namespace pbt

#endif  // VERIF_HARNESS_PBT_GEN_H_
