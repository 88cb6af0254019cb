// C11: multi-scalar multiplication.
#include <algorithm>
#include <list>
#include <string>
#include <vector>

#include "tachyon/math/elliptic_curves/bls12/bls12_381/g1.h"
#include "tachyon/math/elliptic_curves/bn/bn254/g1.h"
#include "tachyon/math/elliptic_curves/bn/bn254/g2.h"
#include "tachyon/math/elliptic_curves/msm/fixed_base_msm.h"
#include "tachyon/math/elliptic_curves/msm/variable_base_msm.h"
#include "tachyon/math/elliptic_curves/pasta/pallas/curve.h"
#include "tachyon/math/elliptic_curves/secp/secp256k1/curve.h"
#include "tachyon/math/elliptic_curves/short_weierstrass/affine_point.h"
#include "tachyon/math/elliptic_curves/short_weierstrass/jacobian_point.h"
#include "tachyon/math/elliptic_curves/short_weierstrass/point_xyzz.h"
#include "tachyon/math/elliptic_curves/short_weierstrass/projective_point.h"
#include "tachyon/math/elliptic_curves/short_weierstrass/test/sw_curve_config.h"
#include "tachyon/math/finite_fields/test/gf7.h"
#include "tachyon/math/geometry/point_conversions.h"

#include "verif/pbt/gen.h"
#include "verif/pbt/pbt.h"

namespace {
using namespace pbt;  // NOLINT
namespace tm = tachyon::math;

template <typename Curve>
struct M {
  using S = typename Curve::ScalarField;
  using Af = tm::AffinePoint<Curve>;
  using Ja = tm::JacobianPoint<Curve>;
  static constexpr bool kTiny = S::Config::kModulusBits < 8;

  template <typename To, typename From>
  static To Conv(const From& p) {
    if constexpr (std::is_same_v<To, From>) {
      return p;
    } else {
      return tm::ConvertPoint<To>(p);
    }
  }
  // 0G, 1G, ..., then a few large multiples and the negated ones
  static constexpr size_t kTable = 40;
  struct Base {
    mpz_class d;
    Ja p;
  };
  static const std::vector<Base>& Table() {
    static const std::vector<Base>* t = [] {
      auto* v = new std::vector<Base>();
      Rng r(12345);
      for (size_t i = 0; i < kTable; ++i) {
        mpz_class d = i < 4 ? mpz_class(static_cast<unsigned long>(i))
                            : FieldToMpz(BulkPrimeField<S>(r));
        if (i >= 30) d = (Modulus<S>() - (*v)[i - 29].d) % Modulus<S>();
        d %= Modulus<S>();
        Base b{d, Ja::Generator().ScalarMul(FromMpz<S::N>(d))};
        v->push_back(b);
      }
      return v;
    }();
    return *t;
  }

  static std::vector<mpz_class> Scalars(Case& c, size_t n) {
    mpz_class r = Modulus<S>();
    std::vector<mpz_class> v(n);
    int mode = c.Draw(5);
    Rng g = c.Bulk();
    static const char* kModes[] = {"random",   "edges",  "all maximal",
                                   "repeated", "sparse", "small"};
    c.Label(kModes[mode]);
    mpz_class rep = FieldToMpz(BulkPrimeField<S>(g));
    for (auto& k : v) {
      switch (mode) {
        case 0:
          k = FieldToMpz(BulkPrimeField<S>(g));
          break;
        case 1:
          switch (g.Upto(5)) {
            case 0:
              k = 0;
              break;
            case 1:
              k = 1;
              break;
            case 2:
              k = r - 1 - static_cast<unsigned long>(g.Upto(2));
              break;
            case 3:
              k = Pow2(g.Upto(S::Config::kModulusBits - 1)) -
                  static_cast<unsigned long>(g.Upto(1));
              break;
            case 4:  // ones up to the top: carries run through all windows
              k = Pow2(S::Config::kModulusBits - 1) - 1;
              k -= Pow2(g.Upto(S::Config::kModulusBits - 1)) - 1;
              break;
            default:  // half of each window: the border of the signed digits
              k = 0;
              for (size_t w = 3 + g.Upto(6), b = w - 1;
                   b < S::Config::kModulusBits - 1; b += w)
                k += Pow2(b);
          }
          break;
        case 2:
          k = r - 1;
          break;
        case 3:
          k = g.Upto(1) ? rep : mpz_class(r - rep);
          break;
        case 4:
          k = g.Upto(9) ? mpz_class(0) : FieldToMpz(BulkPrimeField<S>(g));
          break;
        default:
          k = static_cast<unsigned long>(g.Upto(70));
      }
      k %= r;
      if (k < 0) k += r;
    }
    return v;
  }
  static size_t AnyN(Case& c, size_t big) {
    switch (c.Draw(5)) {
      case 0:
        return c.Draw(3);
      case 1:
        return 28 + c.Draw(8);  // where windows start to grow
      case 2:
        return big ? c.Draw(big) : c.Draw(90);
      case 3:
        return 120 + c.Draw(16);
      default:
        return c.Draw(40);
    }
  }
  static std::vector<S> ToS(const std::vector<mpz_class>& v) {
    std::vector<S> r;
    for (const auto& k : v) r.push_back(FieldFromMpz<S>(k));
    return r;
  }

  template <typename Point>
  static void Variable(Case& c) {
    using Bucket = typename tm::VariableBaseMSM<Point>::Bucket;
    size_t n = AnyN(c, c.OneIn(8) ? 1500 : 300);
    auto k = Scalars(c, n);
    Rng g = c.Bulk();
    int mode = c.Draw(3);
    std::vector<Point> bases;
    mpz_class sum = 0;
    Ja direct = Ja::Zero();
    for (size_t i = 0; i < n; ++i) {
      const Base& b = Table()[mode == 0 ? 4 : mode == 1 ? g.Upto(3)
                                                        : g.Upto(kTable - 1)];
      bases.push_back(Conv<Point>(b.p));
      sum += k[i] * b.d;
      if (n < 6) direct += b.p.ScalarMul(FromMpz<S::N>(k[i]));
    }
    sum %= Modulus<S>();
    c.LabelIf(mode == 0, "one base repeated");
    c.LabelIf(mode == 1, "identity and opposite bases");
    c.LabelIf(n == 0, "empty");
    c.LabelIf(n >= 32, "wide windows");
    c.LabelIf(sum == 0 && n, "sum is the identity");
    c.Nontrivial(n >= 2);
    c.Note(n, " terms, sum ", sum);
    Ja want = Ja::Generator().ScalarMul(FromMpz<S::N>(sum));
    if (n < 6) PBT_T(want == direct, "oracle");
    auto s = ToS(k);
    Bucket out;
    auto check = [&](bool ok, const char* tag) {
      PBT_TM(ok, tag, "refused");
      PBT_TM(Conv<Ja>(out) == want, tag, n << " terms");
    };
    // stale values must not matter
    out = Conv<Bucket>(Table()[7].p);
    tm::VariableBaseMSM<Point> msm;
    check(msm.Run(bases, s, &out), "VariableBaseMSM");
    check(msm.Run(bases, s, &out), "VariableBaseMSM again");
    int which = c.Draw(3);
    static const tm::PippengerParallelStrategy kAll[] = {
        tm::PippengerParallelStrategy::kNone,
        tm::PippengerParallelStrategy::kParallelWindow,
        tm::PippengerParallelStrategy::kParallelTerm,
        tm::PippengerParallelStrategy::kParallelWindowAndTerm};
    static const char* kNames[] = {"kNone", "kParallelWindow", "kParallelTerm",
                                   "kParallelWindowAndTerm"};
    tm::PippengerAdapter<Point> ad;
    check(ad.RunWithStrategy(bases.begin(), bases.end(), s.begin(), s.end(),
                             kAll[which], &out),
          kNames[which]);
    tm::Pippenger<Point> p;
    bool naf = c.Bool(), par = c.Bool();
    p.SetUseMSMWindowNAForTesting(naf);
    p.SetParallelWindows(par);
    check(p.Run(bases.begin(), bases.end(), s.begin(), s.end(), &out),
          naf ? "signed digits" : "unsigned digits");
    // the same object again, with another length
    size_t m = n / 3;
    mpz_class part = 0;
    check(p.Run(bases.begin(), bases.end(), s.begin(), s.end(), &out), "again");
    Bucket sub, rest;
    PBT_T(p.Run(bases.begin(), bases.begin() + m, s.begin(), s.begin() + m, &sub) &&
              p.Run(bases.begin() + m, bases.end(), s.begin() + m, s.end(), &rest),
          "parts");
    PBT_T(Conv<Ja>(sub) + Conv<Ja>(rest) == want, "sum of the parts");
    if (n) {
      PBT_T(!msm.Run(bases.begin(), bases.end() - 1, s.begin(), s.end(), &out),
            "fewer bases accepted");
      PBT_T(!msm.Run(bases.begin(), bases.end(), s.begin(), s.end() - 1, &out),
            "fewer scalars accepted");
      PBT_T(!p.Run(bases.begin(), bases.end(), s.begin(), s.end() - 1, &out),
            "fewer scalars accepted (Pippenger)");
      PBT_T(!ad.RunWithStrategy(bases.begin(), bases.end() - 1, s.begin(),
                                s.end(), kAll[which], &out),
            "fewer bases accepted (strategy)");
    }
  }

  template <typename Point>
  static void Fixed(Case& c) {
    using Msm = tm::FixedBaseMSM<Point>;
    using Out = typename Msm::AddResult;
    size_t n = AnyN(c, 0);
    auto k = Scalars(c, n);
    const Base& b = Table()[c.Draw(kTable - 1)];
    c.LabelIf(b.d == 0, "identity base");
    c.LabelIf(n >= 32, "wide windows");
    c.Nontrivial(n >= 2 && b.d != 0);
    c.Note(n, " scalars, base ", b.d);
    Msm msm;
    // the declared size only chooses the window
    size_t declared = c.Bool() ? n : c.Draw(c.OneIn(6) ? 3000 : 200);
    if (c.Draw(4) == 0) msm.Reset(c.Draw(60), Conv<Point>(Table()[5].p));
    msm.Reset(declared, Conv<Point>(b.p));
    auto s = ToS(k);
    std::vector<Ja> want;
    for (const auto& x : k)
      want.push_back(Ja::Generator().ScalarMul(FromMpz<S::N>(x * b.d % Modulus<S>())));
    std::vector<Out> out(n, Conv<Out>(Table()[6].p));
    PBT_T(msm.Run(s, &out), "Run");
    for (size_t i = 0; i < n; ++i)
      PBT_TM(Conv<Ja>(out[i]) == want[i], "Run", "scalar " << k[i] << " declared " << declared);
    std::vector<Out> out2(n);
    PBT_T(msm.RunSerial(s, out2), "RunSerial");
    for (size_t i = 0; i < n; ++i)
      PBT_TM(Conv<Ja>(out2[i]) == want[i], "RunSerial", k[i]);
    if (n) {
      size_t i = c.Draw(n - 1);
      PBT_T(Conv<Ja>(msm.ScalarMul(s[i])) == want[i], "ScalarMul");
      std::list<S> l(s.begin(), s.end());
      std::list<Out> lo(n);
      PBT_T(msm.Run(l, &lo), "Run on lists");
      PBT_T(Conv<Ja>(lo.back()) == want.back(), "Run on lists");
      out.pop_back();
      PBT_T(!msm.Run(s, &out), "fewer outputs accepted");
      PBT_T(!msm.RunSerial(s, out), "fewer outputs accepted (serial)");
      lo.push_back(lo.front());
      PBT_T(!msm.Run(l, &lo), "more outputs accepted");
    }
  }
};

template <typename Curve>
void Reg(const std::string& n, int weight) {
  RegisterBeforeCase([](uint64_t) { Curve::Init(); });
  using Q = M<Curve>;
  auto w = [weight](int v) { return v * weight; };
  Register(n + ".msm.affine", w(10), w(1000),
           Q::template Variable<tm::AffinePoint<Curve>>);
  Register(n + ".fixed.affine", w(6), w(600),
           Q::template Fixed<tm::AffinePoint<Curve>>);
}
template <typename Curve>
void RegAll(const std::string& n, int w) {
  using Q = M<Curve>;
  Reg<Curve>(n, w);
  Register(n + ".msm.projective", w * 6, w * 600,
           Q::template Variable<tm::ProjectivePoint<Curve>>);
  Register(n + ".msm.jacobian", w * 6, w * 600,
           Q::template Variable<tm::JacobianPoint<Curve>>);
  Register(n + ".msm.xyzz", w * 6, w * 600,
           Q::template Variable<tm::PointXYZZ<Curve>>);
  Register(n + ".fixed.projective", w * 3, w * 300,
           Q::template Fixed<tm::ProjectivePoint<Curve>>);
  Register(n + ".fixed.jacobian", w * 3, w * 300,
           Q::template Fixed<tm::JacobianPoint<Curve>>);
  Register(n + ".fixed.xyzz", w * 3, w * 300,
           Q::template Fixed<tm::PointXYZZ<Curve>>);
}

void RegisterAll() {
  RegAll<tm::bn254::G1Curve>("bn254_g1", 2);
  Reg<tm::bn254::G2Curve>("bn254_g2", 1);
  Reg<tm::bls12_381::G1Curve>("bls12_381_g1", 2);
  Reg<tm::pallas::Curve>("pallas", 2);
  Reg<tm::secp256k1::Curve>("secp256k1", 4);
  RegAll<tm::test::G1Curve>("gf7", 8);
}
PBT_INIT(RegisterAll);
}  // namespace
