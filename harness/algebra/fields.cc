// Generic algorithms over fields, against their textbook definition.
#include "tachyon/math/base/egcd.h"
#include "tachyon/math/base/rational_field.h"
#include "tachyon/math/base/sign.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fq2.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear4.h"
#include "tachyon/math/finite_fields/goldilocks/goldilocks.h"
#include "tachyon/math/finite_fields/mersenne31/mersenne31.h"
#include "tachyon/math/finite_fields/test/gf7.h"

#include "verif/algebra/common.h"

namespace algebra {
namespace {

using namespace tachyon::math;  // NOLINT

// ---- elements ------------------------------------------------------------
template <typename F>
struct Gen {
  static F Any(Case& c) { return AnyPrimeField<F>(c); }
};
template <>
struct Gen<BabyBear4> {
  static BabyBear4 Any(Case& c) {
    BabyBear4 r = BabyBear4::Zero();
    uint64_t kind = c.Draw(2);
    for (size_t i = 0; i < 4; ++i)
      if (kind > 0 || i == 0) r[i] = AnyPrimeField<BabyBear>(c);
    return r;
  }
};
template <>
struct Gen<bn254::Fq2> {
  static bn254::Fq2 Any(Case& c) {
    return {AnyPrimeField<bn254::Fq>(c),
            c.Bool() ? AnyPrimeField<bn254::Fq>(c) : bn254::Fq::Zero()};
  }
};
template <typename T>
struct Gen<RationalField<T>> {
  static RationalField<T> Any(Case& c) {
    T n = Gen<T>::Any(c), d = Gen<T>::Any(c);
    if (d.IsZero()) d = T::One();
    if (c.OneIn(6)) n = d;
    if (c.OneIn(6)) n = -d;
    return {n, d};
  }
};

// A vector that a few drawn elements determine, with zeros and repetitions.
template <typename F>
std::vector<F> Vec(Case& c, size_t n) {
  std::vector<F> v;
  F a = Gen<F>::Any(c), b = Gen<F>::Any(c);
  if (n <= 6) {
    for (size_t i = 0; i < n; ++i) v.push_back(Gen<F>::Any(c));
    return v;
  }
  Rng r = c.Bulk();
  uint64_t zeros = c.Pick({0, 1, 3, 8, 15});
  F x = a;
  for (size_t i = 0; i < n; ++i) {
    x = x * x + b;
    v.push_back(r.Upto(15) < zeros ? F::Zero() : r.Upto(7) == 0 ? F::One() : x);
  }
  return v;
}

template <typename F>
struct FieldProps {
  static constexpr size_t kMax = sizeof(F) > 8 ? 2100 : 4200;

  template <size_t N>
  static void PowN(Case& c, const F& a) {
    auto e = AnyExponent<N>(c);
    c.Note("exponent=", e.z);
    F want = RefPow(a, e.z);
    PBT_CHECK(c, a.Pow(e.b) == want);
    PBT_CHECK(c, a.ScalarMul(e.b) == RefMul(a, e.z));
    // a table of squares at least as long as the exponent
    size_t bits = mpz_sizeinbase(e.z.get_mpz_t(), 2) + c.Draw(3);
    std::vector<F> table;
    F sq = a;
    for (size_t i = 0; i < bits; ++i) {
      table.push_back(sq);
      sq = sq * sq;
    }
    PBT_CHECK(c, F::PowWithTable(table, e.b) == want);
  }

  static void Pow(Case& c) {
    F::Init();
    F a = Gen<F>::Any(c);
    c.Note("a=", a.ToString());
    switch (c.Draw(4)) {
      case 0:
        PowN<1>(c, a);
        break;
      case 1:
        PowN<2>(c, a);
        break;
      case 2:
        PowN<4>(c, a);
        break;
      case 3:
        PowN<5>(c, a);
        break;
      default: {
        // plain integers and field elements as exponents
        uint64_t e = c.U64();
        mpz_class z;
        mpz_import(z.get_mpz_t(), 1, -1, 8, 0, 0, &e);
        c.Note("e=", z);
        PBT_CHECK(c, a.Pow(e) == RefPow(a, z));
        PBT_CHECK(c, a.ScalarMul(e) == RefMul(a, z));
        uint32_t e32 = static_cast<uint32_t>(e);
        PBT_CHECK(c, a.Pow(e32) == RefPow(a, mpz_class(e32)));
        PBT_CHECK(c, a.ScalarMul(e32) == RefMul(a, mpz_class(e32)));
        bn254::Fr s = AnyPrimeField<bn254::Fr>(c);
        PBT_CHECK(c, a.Pow(s) == RefPow(a, FieldToMpz(s)));
        PBT_CHECK(c, a.ScalarMul(s) == RefMul(a, FieldToMpz(s)));
        uint32_t log = static_cast<uint32_t>(c.Draw(70));
        PBT_CHECK(c, a.ExpPowOfTwo(log) == RefPow(a, Pow2(log)));
      }
    }
    c.Nontrivial(!a.IsZero() && !a.IsOne());
  }

  template <uint32_t K>
  static void ConstK(Case& c, const F& a) {
    F p = F::One(), s = F::Zero();
    for (uint32_t i = 0; i < K; ++i) {
      p = p * a;
      s = s + a;
    }
    PBT_CHECK_MSG(c, a.template ConstPow<K>() == p, K);
    PBT_CHECK_MSG(c, a.template ConstScalarMul<K>() == s, K);
  }
  static void Const(Case& c) {
    F::Init();
    F a = Gen<F>::Any(c);
    c.Note("a=", a.ToString());
    c.Nontrivial(!a.IsZero() && !a.IsOne());
    ConstK<0>(c, a);
    ConstK<1>(c, a);
    ConstK<2>(c, a);
    ConstK<3>(c, a);
    ConstK<4>(c, a);
    ConstK<5>(c, a);
    ConstK<6>(c, a);
    ConstK<7>(c, a);
    ConstK<8>(c, a);
    ConstK<9>(c, a);
    ConstK<10>(c, a);
    ConstK<11>(c, a);
    ConstK<17>(c, a);
    ConstK<31>(c, a);
    F t = a;
    t.DoubleInPlace();
    PBT_CHECK(c, t == a + a && a.Double() == t);
    t = a;
    t.SquareInPlace();
    PBT_CHECK(c, t == a * a && a.Square() == t);
    F b = Gen<F>::Any(c);
    t = a;
    t -= b;
    PBT_CHECK(c, t == a - b && t + b == a && a + (-b) == t);
    auto q = a / b;
    PBT_CHECK(c, q.has_value() == !b.IsZero());
    if (q) {
      PBT_CHECK(c, *q * b == a);
      t = a;
      PBT_CHECK(c, (t /= b).has_value());
      PBT_CHECK(c, t == *q);
    }
  }

  static void Successive(Case& c) {
    F::Init();
    F g = Gen<F>::Any(c), k = c.Bool() ? F::One() : Gen<F>::Any(c);
    size_t n = Length(c, kMax);
    c.Note("generator=", g.ToString(), " c=", k.ToString(), " size=", n);
    c.Nontrivial(n > 1 && !g.IsZero() && !g.IsOne());
    c.LabelIf(n > 1024, "size > 1024");
    {
      auto v = F::GetSuccessivePowers(n, g, k);
      PBT_CHECK(c, v.size() == n);
      F p = k;
      for (size_t i = 0; i < n; ++i, p = p * g)
        PBT_CHECK_MSG(c, v[i] == p, "entry " << i);
    }
    {
      auto v = F::GetSuccessiveScalarMuls(n, g);
      PBT_CHECK(c, v.size() == n);
      F p = F::Zero();
      for (size_t i = 0; i < n; ++i, p = p + g)
        PBT_CHECK_MSG(c, v[i] == p, "entry " << i);
    }
    size_t log = 0;
    while ((size_t{1} << (log + 1)) <= n) ++log;
    size_t m = size_t{1} << log;
    auto v = F::GetBitRevIndexSuccessivePowers(m, g, k);
    auto w = F::GetBitRevIndexSuccessivePowersSerial(m, g, k);
    PBT_CHECK(c, v.size() == m && w.size() == m);
    F p = k;
    for (size_t i = 0; i < m; ++i, p = p * g) {
      PBT_CHECK_MSG(c, v[RevBits(i, log)] == p, "power " << i << " of " << m);
      PBT_CHECK_MSG(c, w[RevBits(i, log)] == p, "power " << i << " of " << m);
    }
  }

  static void Sums(Case& c) {
    F::Init();
    size_t n = Length(c, kMax);
    std::vector<F> a = Vec<F>(c, n), b = Vec<F>(c, n);
    F r = Gen<F>::Any(c);
    c.Note("n=", n, " r=", r.ToString());
    c.Nontrivial(n > 1);
    F dot = F::Zero();
    for (size_t i = 0; i < n; ++i) dot = dot + a[i] * b[i];
    PBT_CHECK(c, F::SumOfProducts(a, b) == dot);
    PBT_CHECK(c, F::SumOfProductsSerial(a, b) == dot);
    // forward: sum a_i r^(n-1-i), backward: sum a_i r^i
    F fwd = F::Zero(), bwd = F::Zero(), p = F::One();
    for (size_t i = 0; i < n; ++i, p = p * r) {
      bwd = bwd + a[i] * p;
      fwd = fwd + a[n - 1 - i] * p;
    }
    PBT_CHECK(c, F::template LinearCombination<true>(a, r) == fwd);
    PBT_CHECK(c, F::template LinearCombination<false>(a, r) == bwd);
    if (n > 0) {
      std::vector<F> t = a;
      PBT_CHECK(c, F::template LinearCombinationInPlace<true>(t, r) == fwd);
      t = a;
      PBT_CHECK(c, F::template LinearCombinationInPlace<false>(t, r) == bwd);
    }
    // several products by scalars
    if (n <= 40) {
      std::vector<bn254::Fr> s;
      for (size_t i = 0; i < n; ++i) s.push_back(AnyPrimeField<bn254::Fr>(c));
      std::vector<F> out(n);
      bool ok = F::MultiScalarMul(s, a, &out);
      PBT_CHECK(c, ok == (n > 0));
      for (size_t i = 0; i < n; ++i)
        PBT_CHECK(c, out[i] == RefMul(a[i], FieldToMpz(s[i])));
      if (n > 0) {
        PBT_CHECK(c, F::MultiScalarMul(s, r, &out));
        for (size_t i = 0; i < n; ++i)
          PBT_CHECK(c, out[i] == RefMul(r, FieldToMpz(s[i])));
        PBT_CHECK(c, F::MultiScalarMul(s[0], a, &out));
        for (size_t i = 0; i < n; ++i)
          PBT_CHECK(c, out[i] == RefMul(a[i], FieldToMpz(s[0])));
        std::vector<F> wrong(n + 1);
        PBT_CHECK(c, !F::MultiScalarMul(s, a, &wrong));
        PBT_CHECK(c, !F::MultiScalarMul(s, r, &wrong));
        PBT_CHECK(c, !F::MultiScalarMul(s[0], a, &wrong));
        PBT_CHECK(c, !F::MultiScalarMul(s, wrong, &out));
      }
    }
  }

  static void Inverses(Case& c) {
    F::Init();
    size_t n = Length(c, kMax);
    std::vector<F> a = Vec<F>(c, n);
    F k = c.Bool() ? F::One() : Gen<F>::Any(c);
    c.Note("n=", n, " coeff=", k.ToString());
    c.Nontrivial(n > 1);
    std::vector<F> out(n, F::One());
    auto check = [&](const std::vector<F>& v, const F& coeff) {
      PBT_CHECK(c, v.size() == n);
      for (size_t i = 0; i < n; ++i) {
        if (a[i].IsZero())
          PBT_CHECK_MSG(c, v[i].IsZero(), i);
        else
          PBT_CHECK_MSG(c, v[i] * a[i] == coeff, i);
      }
    };
    PBT_CHECK(c, F::BatchInverse(a, &out, k));
    check(out, k);
    PBT_CHECK(c, F::BatchInverse(a, &out));
    check(out, F::One());
    PBT_CHECK(c, F::BatchInverseSerial(a, &out, k));
    check(out, k);
    std::vector<F> t = a;
    PBT_CHECK(c, F::BatchInverseInPlace(t, k));
    check(t, k);
    t = a;
    PBT_CHECK(c, F::BatchInverseInPlaceSerial(t, k));
    check(t, k);
    std::vector<F> wrong(n + 1, F::One());
    PBT_CHECK(c, !F::BatchInverse(a, &wrong));
    PBT_CHECK(c, !F::BatchInverseSerial(a, &wrong));
  }

  static int Reg(const std::string& name) {
    size_t q = sizeof(F) > 8 ? 1 : 2;
    Register(name + "/pow", 3000 * q, 60000 * q, &Pow);
    Register(name + "/const", 3000 * q, 60000 * q, &Const);
    Register(name + "/successive", 800 * q, 12000 * q, &Successive);
    Register(name + "/sums", 800 * q, 12000 * q, &Sums);
    Register(name + "/inverses", 800 * q, 12000 * q, &Inverses);
    return 0;
  }
};

// ---- fractions -----------------------------------------------------------
template <typename F>
void Rational(Case& c) {
  using R = RationalField<F>;
  F::Init();
  R a = Gen<R>::Any(c), b = Gen<R>::Any(c);
  c.Note("a=", a.ToString(), " b=", b.ToString());
  c.Nontrivial(!a.denominator().IsOne() && !a.IsZero());
  auto val = [](const R& r) {
    return r.numerator() * *r.denominator().Inverse();
  };
  F x = val(a), y = val(b);
  PBT_CHECK(c, a.Evaluate() == x);
  PBT_CHECK(c, a.IsZero() == x.IsZero());
  PBT_CHECK(c, a.IsOne() == x.IsOne());
  PBT_CHECK(c, a.IsMinusOne() == (x + F::One()).IsZero());
  PBT_CHECK(c, (a == b) == (x == y));
  PBT_CHECK(c, (a != b) == (x != y));
  PBT_CHECK(c, val(a + b) == x + y);
  PBT_CHECK(c, val(a - b) == x - y);
  PBT_CHECK(c, val(a * b) == x * y);
  PBT_CHECK(c, val(-a) == -x);
  PBT_CHECK(c, val(a.Double()) == x + x);
  PBT_CHECK(c, val(a.Square()) == x * x);
  R t = a;
  PBT_CHECK(c, val(t += b) == x + y);
  t = a;
  PBT_CHECK(c, val(t -= b) == x - y);
  t = a;
  PBT_CHECK(c, val(t *= b) == x * y);
  t = a;
  PBT_CHECK(c, val(t += t) == x + x);
  t = a;
  PBT_CHECK(c, val(t -= t).IsZero());
  t = a;
  PBT_CHECK(c, val(t *= t) == x * x);
  t = a;
  PBT_CHECK(c, val(t.DoubleInPlace()) == x + x);
  t = a;
  PBT_CHECK(c, val(t.SquareInPlace()) == x * x);
  t = a;
  PBT_CHECK(c, val(t.NegateInPlace()) == -x);
  auto inv = a.Inverse();
  PBT_CHECK(c, inv.has_value() == !x.IsZero());
  if (inv) PBT_CHECK(c, val(*inv) * x == F::One());
  t = a;
  PBT_CHECK(c, t.InverseInPlace().has_value() == !x.IsZero());
  if (!x.IsZero()) PBT_CHECK(c, val(t) * x == F::One());
  auto q = a / b;
  PBT_CHECK(c, q.has_value() == !y.IsZero());
  if (q) PBT_CHECK(c, val(*q) * y == x);
  PBT_CHECK(c, R::Zero().IsZero() && val(R::Zero()).IsZero());
  PBT_CHECK(c, R::One().IsOne() && val(R::One()).IsOne());
  PBT_CHECK(c, R::MinusOne().IsMinusOne() && (val(R::MinusOne()) + F::One()).IsZero());
  PBT_CHECK(c, (val(R::TwoInv()) + val(R::TwoInv())).IsOne());
  PBT_CHECK(c, R(x) == a);
  uint64_t e = c.Draw(300);
  PBT_CHECK(c, val(a.Pow(e)) == x.Pow(e));
}

template <typename F>
void RationalBatch(Case& c) {
  using R = RationalField<F>;
  F::Init();
  size_t n = Length(c, 1500);
  std::vector<F> num = Vec<F>(c, n), den = Vec<F>(c, n);
  std::vector<R> v;
  for (size_t i = 0; i < n; ++i)
    v.push_back(R(num[i], den[i].IsZero() ? F::One() : den[i]));
  F k = c.Bool() ? F::One() : Gen<F>::Any(c);
  c.Note("n=", n, " coeff=", k.ToString());
  c.Nontrivial(n > 1);
  std::vector<F> out(n);
  PBT_CHECK(c, R::BatchEvaluate(v, &out, k));
  for (size_t i = 0; i < n; ++i)
    PBT_CHECK_MSG(c, out[i] * v[i].denominator() == k * v[i].numerator(), i);
  std::vector<F> wrong(n + 1);
  PBT_CHECK(c, !R::BatchEvaluate(v, &wrong, k));
  R sum = R::Zero();
  F want = F::Zero();
  size_t m = n < 30 ? n : 30;
  for (size_t i = 0; i < m; ++i) {
    sum += v[i];
    want = want + v[i].numerator() * *v[i].denominator().Inverse();
  }
  PBT_CHECK(c, sum.Evaluate() == want);
}

// ---- integers ------------------------------------------------------------
template <typename T>
void Egcd(Case& c) {
  constexpr int kBits = sizeof(T) * 8 - 2;
  auto any = [&]() {
    T v = static_cast<T>(c.U64() >> (64 - 1 - c.Draw(kBits - 1)));
    return c.Bool() ? v : static_cast<T>(-v);
  };
  T x = any(), y = any();
  if (c.OneIn(4)) {  // a common factor
    T f = static_cast<T>(1 + c.Draw(1000));
    x = static_cast<T>(x / 1001 * f);
    y = static_cast<T>(y / 1001 * f);
  }
  c.Note("x=", int64_t{x}, " y=", int64_t{y});
  c.Nontrivial(x != 0 && y != 0);
  auto r = EGCD<T>::Compute(x, y);
  __int128 s = r.s, t = r.t;
  PBT_CHECK(c, s * x + t * y == r.r);
  PBT_CHECK(c, r.IsValid(x, y));
  mpz_class g, mx = static_cast<long>(x), my = static_cast<long>(y);
  mpz_gcd(g.get_mpz_t(), mx.get_mpz_t(), my.get_mpz_t());
  PBT_CHECK(c, abs(mpz_class(static_cast<long>(r.r))) == g);
}

void RegisterAll() {
  FieldProps<BabyBear>::Reg("baby_bear");
  FieldProps<Goldilocks>::Reg("goldilocks");
  FieldProps<Mersenne31>::Reg("mersenne31");
  FieldProps<GF7>::Reg("gf7");
  FieldProps<bn254::Fr>::Reg("bn254_fr");
  FieldProps<bn254::Fq2>::Reg("bn254_fq2");
  FieldProps<BabyBear4>::Reg("baby_bear4");
  Register("rational_bn254_fr", 8000, 100000, &Rational<bn254::Fr>);
  Register("rational_baby_bear", 16000, 200000, &Rational<BabyBear>);
  Register("rational_gf7", 16000, 200000, &Rational<GF7>);
  Register("rational_batch_bn254_fr", 800, 12000, &RationalBatch<bn254::Fr>);
  Register("rational_batch_gf7", 1600, 24000, &RationalBatch<GF7>);
  Register("egcd_int64", 40000, 800000, &Egcd<int64_t>);
  Register("egcd_int32", 40000, 800000, &Egcd<int32_t>);
}
PBT_INIT(RegisterAll);

}  // namespace
}  // namespace algebra
