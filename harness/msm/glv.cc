// C11: the endomorphism and scalar decomposition.
#include <string>

#include "tachyon/math/elliptic_curves/bls12/bls12_381/g1.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/g2.h"
#include "tachyon/math/elliptic_curves/bn/bn254/g1.h"
#include "tachyon/math/elliptic_curves/bn/bn254/g2.h"
#include "tachyon/math/elliptic_curves/msm/glv.h"
#include "tachyon/math/geometry/point_conversions.h"

#include "verif/pbt/gen.h"
#include "verif/pbt/pbt.h"

namespace {
using namespace pbt;  // NOLINT
namespace tm = tachyon::math;

template <typename Curve>
struct G {
  using S = typename Curve::ScalarField;
  using Cfg = typename Curve::Config;
  using Af = tm::AffinePoint<Curve>;
  using Ja = tm::JacobianPoint<Curve>;

  static mpz_class AnyK(Case& c) {
    mpz_class r = Modulus<S>(), l = FieldToMpz(Cfg::kLambda);
    mpz_class k;
    switch (c.Draw(6)) {
      case 0:
        k = c.Draw(40);
        break;
      case 1:
        k = r - 1 - c.Draw(40);
        break;
      case 2:  // halves of unlike lengths
        k = mpz_class(static_cast<unsigned long>(c.Draw(9))) +
            l * mpz_class(static_cast<unsigned long>(c.Draw(9)));
        break;
      case 3: {
        mpz_class a, b;
        a = Pow2(c.Draw(127)) - static_cast<unsigned long>(c.Draw(2));
        b = Pow2(c.Draw(127)) - static_cast<unsigned long>(c.Draw(2));
        if (c.Bool()) a = -a;
        if (c.Bool()) b = -b;
        k = a + l * b;
        break;
      }
      case 4: {  // one limb and two limbs
        Rng g = c.Bulk();
        mpz_class a = mpz_class(std::to_string(g.Next())),
                  b = mpz_class(std::to_string(g.Next())) << c.Draw(62);
        k = c.Bool() ? a + l * b : b + l * a;
        break;
      }
      default: {
        Rng g = c.Bulk();
        return FieldToMpz(BulkPrimeField<S>(g));
      }
    }
    k %= r;
    return k < 0 ? mpz_class(k + r) : k;
  }

  template <typename Point>
  static void Mul(Case& c) {
    using Glv = tm::GLV<Point>;
    using Ret = typename Glv::RetPoint;
    mpz_class k = AnyK(c);
    S s = FieldFromMpz<S>(k);
    c.Note("k=", k);
    mpz_class r = Modulus<S>(), l = FieldToMpz(Cfg::kLambda);
    auto d = Glv::Decompose(s);
    mpz_class k1 = d.k1.sign == tm::Sign::kNegative ? mpz_class(-d.k1.abs_value)
                                                    : d.k1.abs_value;
    mpz_class k2 = d.k2.sign == tm::Sign::kNegative ? mpz_class(-d.k2.abs_value)
                                                    : d.k2.abs_value;
    PBT_T(d.k1.abs_value >= 0 && d.k2.abs_value >= 0, "absolute values");
    mpz_class back = (k1 + l * k2 - k) % r;
    PBT_T(back == 0, "k = k1 + lambda k2");
    // halves: much shorter than the scalar
    size_t bits = mpz_sizeinbase(r.get_mpz_t(), 2);
    PBT_TM(mpz_sizeinbase(k1.get_mpz_t(), 2) <= bits / 2 + 4 &&
               mpz_sizeinbase(k2.get_mpz_t(), 2) <= bits / 2 + 4,
           "short halves", k1 << " " << k2);
    c.Nontrivial(k1 != 0 && k2 != 0);
    c.LabelIf(mpz_size(k1.get_mpz_t()) != mpz_size(k2.get_mpz_t()), "unlike limbs");
    c.LabelIf(k1 < 0, "k1 < 0");
    c.LabelIf(k2 < 0, "k2 < 0");

    Rng g = c.Bulk();
    S m = c.Draw(6) == 0 ? S::Zero() : BulkPrimeField<S>(g);
    Ja p = m * Ja::Generator();
    Point q = Conv<Point>(p);
    Ret e = ToRet<Ret>(Glv::Endomorphism(q));
    PBT_T(e == ToRet<Ret>(Conv<Point>(p * Cfg::kLambda)), "endomorphism");
    PBT_T(Glv::Mul(q, s) == ToRet<Ret>(Conv<Point>(p * s)), "Mul");
  }
  template <typename Point>
  static Point Conv(const Ja& p) {
    if constexpr (std::is_same_v<Point, Ja>) {
      return p;
    } else {
      return tm::ConvertPoint<Point>(p);
    }
  }
  template <typename Ret, typename Point>
  static Ret ToRet(const Point& p) {
    if constexpr (std::is_same_v<Point, Ret>) {
      return p;
    } else {
      return tm::ConvertPoint<Ret>(p);
    }
  }
};

template <typename Curve>
void Reg(const std::string& n) {
  RegisterBeforeCase([](uint64_t) { Curve::Init(); });
  using Q = G<Curve>;
  Register("glv." + n + ".affine", 60, 6000,
           Q::template Mul<tm::AffinePoint<Curve>>);
  Register("glv." + n + ".projective", 60, 6000,
           Q::template Mul<tm::ProjectivePoint<Curve>>);
  Register("glv." + n + ".jacobian", 60, 6000,
           Q::template Mul<tm::JacobianPoint<Curve>>);
  Register("glv." + n + ".xyzz", 60, 6000,
           Q::template Mul<tm::PointXYZZ<Curve>>);
}

void RegisterAll() {
  Reg<tm::bn254::G1Curve>("bn254_g1");
  Reg<tm::bls12_381::G1Curve>("bls12_381_g1");
  Reg<tm::bn254::G2Curve>("bn254_g2");
  Reg<tm::bls12_381::G2Curve>("bls12_381_g2");
}
PBT_INIT(RegisterAll);
}  // namespace
