// Packed vectors against the scalar field, lane by lane.
#include <array>
#include <string>
#include <vector>

#include "absl/hash/hash.h"

#include "tachyon/math/finite_fields/baby_bear/baby_bear4.h"
#include "tachyon/math/finite_fields/baby_bear/internal/packed_baby_bear_avx2.h"
#include "tachyon/math/finite_fields/baby_bear/packed_baby_bear4.h"
#include "tachyon/math/finite_fields/koala_bear/internal/packed_koala_bear_avx2.h"
#include "tachyon/math/finite_fields/koala_bear/koala_bear4.h"
#include "tachyon/math/finite_fields/koala_bear/packed_koala_bear4.h"
#include "tachyon/math/finite_fields/mersenne31/internal/packed_mersenne31.h"
#include "tachyon/math/finite_fields/mersenne31/internal/packed_mersenne31_avx2.h"

#include "verif/pbt/gen.h"
#include "verif/pbt/pbt.h"

namespace {
using namespace pbt;
using namespace tachyon::math;

template <typename F>
F Lane(Case& c) {
  mpz_class p = Modulus<F>();
  mpz_class v = Below(c, p);
  if constexpr (F::Config::kUseMontgomery) {
    // border values of the representation
    if (c.Bool()) return F::FromMontgomery(v.get_ui());
  }
  return FieldFromMpz<F>(v);
}

// ---- packed prime fields -------------------------------------------------
template <typename Pk>
struct P {
  using F = typename Pk::PrimeField;
  static constexpr size_t N = Pk::N;
  using Lanes = std::array<F, N>;

  static Lanes Any(Case& c) {
    Lanes l;
    if (c.OneIn(8)) {
      F f = Lane<F>(c);
      l.fill(f);
      return l;
    }
    for (size_t i = 0; i < N; ++i) l[i] = Lane<F>(c);
    return l;
  }
  static Pk Make(const Lanes& l) {
    Pk p;
    for (size_t i = 0; i < N; ++i) p[i] = l[i];
    return p;
  }
  static std::string Str(const Lanes& l) {
    std::string s;
    for (auto& f : l) s += f.ToString() + " ";
    return s;
  }

  static void Arith(Case& c) {
    Pk::Init();
    Lanes la = Any(c), lb = Any(c);
    // lanes that cancel or wrap exactly
    for (size_t i = 0; i < N; ++i) {
      switch (c.Draw(9)) {
        case 0:
          lb[i] = la[i];
          break;
        case 1:
          lb[i] = -la[i];
          break;
        case 2:
          lb[i] = F::One() - la[i];
          break;
      }
    }
    Pk a = Make(la), b = Make(lb);
    c.Note("a=", Str(la), " b=", Str(lb));
    bool mixed = false;
    for (size_t i = 1; i < N; ++i) mixed |= la[i] != la[0] && lb[i] != lb[0];
    c.Nontrivial(mixed);
    auto check = [&](const Pk& got, auto f, const char* what) {
      for (size_t i = 0; i < N; ++i) {
        F want = f(la[i], lb[i]);
        // the representation, too: a lane that is not reduced compares unequal
        if (got[i].value() != want.value())
          c.Fail(what, std::string(what) + ": lane " + std::to_string(i) +
                           " got raw " + std::to_string(got[i].value()) +
                           " want raw " + std::to_string(want.value()) +
                           " for " + la[i].ToString() + " and " +
                           lb[i].ToString());
      }
    };
    Pk t;
    check(a, [](F x, F y) { return x; }, "value");
    check(a + b, [](F x, F y) { return x + y; }, "add");
    check(a - b, [](F x, F y) { return x - y; }, "sub");
    check(a * b, [](F x, F y) { return x * y; }, "mul");
    check(-a, [](F x, F y) { return -x; }, "neg");
    check(a.Double(), [](F x, F y) { return x + x; }, "double");
    check(a.Square(), [](F x, F y) { return x * x; }, "square");
    t = a;
    check(t += b, [](F x, F y) { return x + y; }, "add in place");
    t = a;
    check(t -= b, [](F x, F y) { return x - y; }, "sub in place");
    t = a;
    check(t *= b, [](F x, F y) { return x * y; }, "mul in place");
    t = a;
    check(t.NegateInPlace(), [](F x, F y) { return -x; }, "neg in place");
    t = a;
    check(t.DoubleInPlace(), [](F x, F y) { return x + x; },
          "double in place");
    t = a;
    check(t.SquareInPlace(), [](F x, F y) { return x * x; },
          "square in place");
    t = a;
    t += t;
    check(t, [](F x, F y) { return x + x; }, "add self");
    t = a;
    t *= t;
    check(t, [](F x, F y) { return x * x; }, "mul self");
    t = a;
    t -= t;
    check(t, [](F x, F y) { return F::Zero(); }, "sub self");
    check(Pk::Zero(), [](F x, F y) { return F::Zero(); }, "zero");
    check(Pk::One(), [](F x, F y) { return F::One(); }, "one");
    check(Pk::MinusOne(), [](F x, F y) { return F::MinusOne(); },
          "minus one");
    check(Pk::TwoInv(), [](F x, F y) { return F::TwoInv(); }, "two inverse");
    F s = Lane<F>(c);
    check(Pk::Broadcast(s), [s](F x, F y) { return s; }, "broadcast");
    uint32_t n = static_cast<uint32_t>(
        c.Draw(mpz_class(Modulus<F>() - 1).get_ui()));
    check(Pk(n), [n](F x, F y) { return F(n); }, "from integer");
    // predicates, equality, order
    bool all0 = true, all1 = true, allm1 = true, eq = true;
    int cmp = 0;
    for (size_t i = 0; i < N; ++i) {
      all0 &= la[i].IsZero();
      all1 &= la[i].IsOne();
      allm1 &= la[i].IsMinusOne();
      eq &= la[i] == lb[i];
      if (cmp == 0) cmp = la[i] < lb[i] ? -1 : la[i] > lb[i] ? 1 : 0;
    }
    PBT_CHECK(c, a.IsZero() == all0 && a.IsOne() == all1);
    PBT_CHECK(c, a.IsMinusOne() == allm1);
    PBT_CHECK(c, (a == b) == eq && (a != b) == !eq);
    PBT_CHECK(c, (a < b) == (cmp < 0) && (a > b) == (cmp > 0));
    PBT_CHECK(c, (a <= b) == (cmp <= 0) && (a >= b) == (cmp >= 0));
    PBT_CHECK(c, a - b + b == a);
    PBT_CHECK(c, absl::HashOf(a - b + b) == absl::HashOf(a));
    PBT_CHECK(c, a.values() == la);
    // a chain
    Lanes lt = la;
    t = a;
    for (size_t k = c.Draw(8); k > 0; --k) {
      uint64_t op = c.Draw(4);
      for (size_t i = 0; i < N; ++i) {
        switch (op) {
          case 0:
            lt[i] += lb[i];
            break;
          case 1:
            lt[i] = lb[i] - lt[i];
            break;
          case 2:
            lt[i] *= lb[i];
            break;
          case 3:
            lt[i] = -lt[i];
            break;
          default:
            lt[i] = lt[i] * lt[i];
        }
      }
      switch (op) {
        case 0:
          t += b;
          break;
        case 1:
          t = b - t;
          break;
        case 2:
          t *= b;
          break;
        case 3:
          t = -t;
          break;
        default:
          t = t.Square();
      }
      for (size_t i = 0; i < N; ++i)
        PBT_CHECK_MSG(c, t[i].value() == lt[i].value(), "lane " << i);
    }
  }

  static void Pow(Case& c) {
    Pk::Init();
    Lanes la = Any(c), lb = Any(c);
    Pk a = Make(la), b = Make(lb);
    uint64_t e = c.U64() >> c.Draw(63);
    c.Note("a=", Str(la), " e=", e);
    c.Nontrivial(e > 2);
    auto same = [&](const Pk& got, auto f, const char* what) {
      for (size_t i = 0; i < N; ++i)
        if (got[i].value() != f(la[i], lb[i]).value())
          c.Fail(what, std::string(what) + ": lane " + std::to_string(i) +
                           " for " + la[i].ToString());
    };
    same(a.Pow(e), [e](F x, F y) { return x.Pow(e); }, "pow");
    same(a.template ConstPow<3>(), [](F x, F y) { return x.Pow(3); }, "x^3");
    same(a.template ConstPow<5>(), [](F x, F y) { return x.Pow(5); }, "x^5");
    same(a.template ConstPow<7>(), [](F x, F y) { return x.Pow(7); }, "x^7");
    // inversion: every lane must be invertible
    for (auto& f : la)
      if (f.IsZero()) f = F::One();
    a = Make(la);
    auto inv = a.Inverse();
    PBT_CHECK(c, inv.has_value());
    same(*inv, [](F x, F y) { return *x.Inverse(); }, "inverse");
    Pk t = a;
    PBT_CHECK(c, t.InverseInPlace().has_value());
    PBT_CHECK(c, t == *inv);
    auto q = b / a;
    PBT_CHECK(c, q.has_value());
    same(*q, [](F x, F y) { return *(y / x); }, "quotient");
    // products of several vectors
    std::vector<Pk> l, r;
    size_t n = c.Range(1, 5);
    std::array<F, N> sum;
    sum.fill(F::Zero());
    for (size_t k = 0; k < n; ++k) {
      Lanes x = Any(c), y = Any(c);
      l.push_back(Make(x));
      r.push_back(Make(y));
      for (size_t i = 0; i < N; ++i) sum[i] += x[i] * y[i];
    }
    PBT_CHECK(c, Pk::SumOfProductsSerial(l, r) == Make(sum));
  }

  static int Reg(const std::string& name) {
    Register(name + "/arith", 20000, 800000, &Arith);
    Register(name + "/pow", 6000, 150000, &Pow);
    return 0;
  }
};

// ---- packed extension fields ---------------------------------------------
template <typename PkE, typename E>
struct PE {
  using Pk = typename PkE::BaseField;
  using F = typename E::BaseField;
  static constexpr size_t N = Pk::N;
  static constexpr size_t D = E::Config::kDegreeOverBaseField;
  using Lanes = std::array<E, N>;

  static E AnyE(Case& c) {
    uint64_t kind = c.Draw(3);
    E e = E::Zero();
    for (size_t j = 0; j < D; ++j)
      if (kind == 0 ? j == 0 : kind == 1 ? c.Bool() : true) e[j] = Lane<F>(c);
    return e;
  }
  static Lanes Any(Case& c) {
    Lanes l;
    for (auto& e : l) e = AnyE(c);
    return l;
  }
  static PkE Make(const Lanes& l) {
    PkE p;
    for (size_t j = 0; j < D; ++j)
      for (size_t i = 0; i < N; ++i) p[j][i] = l[i][j];
    return p;
  }
  static E At(const PkE& p, size_t i) {
    E e;
    for (size_t j = 0; j < D; ++j) e[j] = p[j][i];
    return e;
  }

  static void Arith(Case& c) {
    PkE::Init();
    E::Init();
    Lanes la = Any(c), lb = Any(c);
    PkE a = Make(la), b = Make(lb);
    c.Note("a0=", la[0].ToString(), " b0=", lb[0].ToString());
    c.Nontrivial();
    std::array<F, N> ls;
    Pk s;
    for (size_t i = 0; i < N; ++i) s[i] = ls[i] = Lane<F>(c);
    auto check = [&](const PkE& got, auto f, const char* what) {
      for (size_t i = 0; i < N; ++i) {
        E want = f(la[i], lb[i]);
        if (At(got, i) != want)
          c.Fail(what, std::string(what) + ": lane " + std::to_string(i) +
                           " got " + At(got, i).ToString() + " want " +
                           want.ToString() + " for " + la[i].ToString() +
                           " and " + lb[i].ToString());
      }
    };
    PkE t;
    check(a + b, [](E x, E y) { return x + y; }, "add");
    check(a - b, [](E x, E y) { return x - y; }, "sub");
    check(a * b, [](E x, E y) { return x * y; }, "mul");
    check(-a, [](E x, E y) { return -x; }, "neg");
    check(a.Double(), [](E x, E y) { return x + x; }, "double");
    check(a.Square(), [](E x, E y) { return x * x; }, "square");
    t = a;
    check(t += b, [](E x, E y) { return x + y; }, "add in place");
    t = a;
    check(t *= b, [](E x, E y) { return x * y; }, "mul in place");
    t = a;
    t *= t;
    check(t, [](E x, E y) { return x * x; }, "mul self");
    check(PkE::Zero(), [](E x, E y) { return E::Zero(); }, "zero");
    check(PkE::One(), [](E x, E y) { return E::One(); }, "one");
    check(PkE::MinusOne(), [](E x, E y) { return E::MinusOne(); },
          "minus one");
    // by packed base field elements
    t = a * s;
    for (size_t i = 0; i < N; ++i)
      PBT_CHECK_MSG(c, At(t, i) == la[i] * ls[i], "lane " << i);
    t = a;
    t *= s;
    for (size_t i = 0; i < N; ++i)
      PBT_CHECK_MSG(c, At(t, i) == la[i] * ls[i], "lane " << i);
    uint32_t k = c.Draw(2 * D);
    t = a;
    t.FrobeniusMapInPlace(k);
    check(t, [k](E x, E y) { return x.FrobeniusMapInPlace(k); }, "frobenius");
    uint64_t e = c.Draw(300);
    check(a.Pow(e), [e](E x, E y) { return x.Pow(e); }, "pow");
    // inversion
    for (auto& x : la)
      if (x.IsZero()) x = E::One();
    a = Make(la);
    auto inv = a.Inverse();
    PBT_CHECK(c, inv.has_value());
    check(*inv, [](E x, E y) { return *x.Inverse(); }, "inverse");
    Pk norm = a.Norm();
    for (size_t i = 0; i < N; ++i)
      PBT_CHECK_MSG(c, norm[i] == la[i].Norm(), "lane " << i);
    // powers spread over lanes: lane i of entry k is base^(kN + i)
    E base = la[0];
    size_t size = c.Range(1, 5);
    auto powers = E::GetExtendedPackedPowers(base, size);
    PBT_CHECK(c, powers.size() == size);
    E p = E::One();
    for (size_t q = 0; q < size; ++q)
      for (size_t i = 0; i < N; ++i, p *= base)
        PBT_CHECK_MSG(c, At(powers[q], i) == p,
                      q << " lane " << i << " got " << At(powers[q], i).ToString()
                        << " want " << p.ToString() << " base " << base.ToString() << " sq " << base.Square().ToString() << " all " << [&]{std::string s; for(size_t l=0;l<N;++l) s+=At(powers[q],l).ToString()+" "; return s;}());
  }
  static int Reg(const std::string& name) {
    Register(name + "/arith", 6000, 200000, &Arith);
    return 0;
  }
};

[[maybe_unused]] int r[] = {
    P<PackedBabyBearAVX2>::Reg("baby_bear_avx2"),
    P<PackedKoalaBearAVX2>::Reg("koala_bear_avx2"),
    P<PackedMersenne31AVX2>::Reg("mersenne31_avx2"),
#if defined(TACHYON_HAS_AVX512)
    P<PackedBabyBear>::Reg("baby_bear_avx512"),
    P<PackedKoalaBear>::Reg("koala_bear_avx512"),
    P<PackedMersenne31>::Reg("mersenne31_avx512"),
#endif
    PE<PackedBabyBear4, BabyBear4>::Reg("packed_baby_bear4"),
    PE<PackedKoalaBear4, KoalaBear4>::Reg("packed_koala_bear4"),
};
}  // namespace
